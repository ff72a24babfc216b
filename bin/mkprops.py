#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here as data so that it stays diffable)."""
import json, pathlib
C='augpathlib/core.py'; K='augpathlib/caches.py'; R='augpathlib/remotes.py'; M='augpathlib/meta.py'
U='augpathlib/utils.py'; S='augpathlib/swap.py'; G='augpathlib/repo.py'; GP='augpathlib/repo_patch.py'
P='augpathlib/package.py'; Z='augpathlib/zip.py'
props=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),
        why_tests_cant=why,
        anchors=dict(files=list(files),mechanism=[dict(name=n,where=w) for n,w in mech],
                     **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                     **({'observe_at':list(observe)} if observe else {}),hook_needed=None)))
exec(pathlib.Path(__file__).with_name('props_data.py').read_text())
pathlib.Path(__file__).resolve().parent.parent.joinpath('properties.jsonl').write_text(
    ''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in props))
print(len(props))
