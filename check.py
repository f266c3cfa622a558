#!/usr/bin/env python3-vt
import sys,os
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.join(HERE,'engine'))
import runner,plan
prop=sys.argv[1]
tier='thorough' if ('--thorough' in sys.argv or os.environ.get('VERIF_TIER')=='thorough') else 'quick'
try: seed=int(os.environ.get('VERIF_SEED','1'))
except ValueError: seed=1
sys.exit(runner.run_property(prop,plan.PLAN[prop],tier,seed,'--baseline' in sys.argv))
