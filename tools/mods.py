#!/usr/bin/env python3
"""Regenerates harness/src/props/mod.rs from the files present."""
import glob, os
d=os.path.join(os.path.dirname(__file__),'..','harness','src','props')
ids=sorted(os.path.basename(f)[:-3] for f in glob.glob(d+'/c*.rs'))
s='use crate::engine::{Env, Plan};\n'
s+=''.join(f'pub mod {i};\n' for i in ids)
s+='\npub fn plan(id: &str, env: &Env) -> Option<Plan> {\n    Some(match id {\n'+''.join(f'        "{i.upper()}" => {i}::plan(env),\n' for i in ids)+'        _ => return None,\n    })\n}\n'
open(d+'/mod.rs','w').write(s)
