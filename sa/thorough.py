#!/usr/bin/env python3
"""thorough.py PROPERTY -- the quick decision, repeated for every feature configuration of the crate"""
import os,sys,subprocess
HERE=os.path.dirname(os.path.abspath(__file__))
pid=sys.argv[1]; rc=0
env=dict(os.environ,VERIF_TIER='thorough')
for feats in('','no-log-ix-name','cpi','no-idl'):
    print('features: '+(feats or 'default'))
    r=subprocess.run([sys.executable,os.path.join(HERE,'run.py'),pid,'thorough'],env=dict(env,CYK_FEATURES=feats)).returncode
    if r: rc=r; break
sys.exit(rc)
