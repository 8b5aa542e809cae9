#!/usr/bin/env python3
# mkseed.py [--check] [id...]: (re)creates /verif/seeded/<id> from seedlib/defs.py; --check confirms the demonstrations and
# the stable tests in a scratch copy of /repo, TESTS=0 leaves the tests out, TESTS=fast the slow ones
import subprocess,sys,os,json,shutil,tempfile
here=os.path.dirname(os.path.abspath(__file__)); lib=here+'/seedlib'
exec(open(lib+'/defs.py').read())
args=[a for a in sys.argv[1:] if not a.startswith('--')]; check='--check' in sys.argv
SC=os.environ.get('SCRATCH','/tmp/seedscratch'); R=SC+'/repo'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
os.makedirs(SC,exist_ok=True)
if not os.path.exists(R): print(sh(f'cp -a /repo {R}').stdout)
env=dict(os.environ,RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',RUSTC_WRAPPER='',CARGO_INCREMENTAL='1',CARGO_TERM_COLOR='never')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for x in S:
    if args and x['id'] not in args: continue
    sh(f'git -C {R} fetch -q /repo main && git -C {R} checkout -q -f FETCH_HEAD && git -C {R} clean -qfd')
    bad=False
    for e in x['edits']:
        f,o,n=e[:3]; nth=e[3] if len(e)>3 else 0
        p=f'{R}/{f}'; s=open(p).read(); parts=s.split(o)
        if len(parts)<nth+2: print(x['id'],'NO MATCH',f,repr(o[:70])); bad=True; break
        open(p,'w').write(o.join(parts[:nth+1])+n+o.join(parts[nth+1:]))
    if bad: continue
    d=sh(f'git -C {R} diff').stdout
    # changed lines must come from the original repository
    nonorig=0; orig=0
    for f in set(e[0] for e in x['edits']):
        bl=sh(f'git -C {R} blame -s HEAD -- {f}').stdout.splitlines()
        hunks=[l for l in sh(f'git -C {R} diff -U0 -- {f}').stdout.splitlines() if l.startswith('@@')]
        for h in hunks:
            a=h.split()[1][1:].split(','); st=int(a[0]); ct=int(a[1]) if len(a)>1 else 1
            for i in range(st-1,st-1+ct):
                if bl[i].startswith('^'): orig+=1
                else: nonorig+=1; print('   not original:',bl[i][:140])
    o=f"{os.path.dirname(here)}/seeded/{x['id']}"; os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(d)
    open(o+'/main.rs','w').write('#![allow(warnings)]\nmod common;\nuse common::*;\n\nfn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n    use_cpus(1);\n'.replace('    use_cpus(1);\n','' if 'use_cpus' in x['body'] else '    use_cpus(1);\n')+x['body'].lstrip('\n')+'}\n')
    for f in ['common.rs','demo.sh','Cargo.lock']: shutil.copy(f'{lib}/{f}',o)
    os.chmod(o+'/demo.sh',0o755)
    json.dump(dict(property=x['property'],needs=x['needs'],what_it_breaks=x['breaks']),open(o+'/meta.json','w'),indent=1)
    msg=f"{x['id']} {x['property']} lines orig={orig} other={nonorig}"
    if check:
        p1=sh(f'bash {o}/demo.sh',cwd=R)
        sh(f'git -C {R} checkout -q -- .'); p0=sh(f'bash {o}/demo.sh',cwd=R)
        msg+=f' demo patched={p1.returncode} clean={p0.returncode}'
        if p0.returncode or not p1.returncode: msg+='\n'+p1.stdout[-1500:]+'\n--clean--\n'+p0.stdout[-1500:]
        elif os.environ.get('TESTS')!='0':
            sh(f'git -C {R} apply {o}/patch.diff')
            rep=f'{R}/target/nextest/vp/junit.xml'
            if os.path.exists(rep): os.remove(rep)
            t=sh(f'timeout -k 20 1800 cargo nextest run --workspace --release --lib --bins --tests --offline --tool-config-file vp:/opt/vp/nextest.toml --profile vp --no-tests pass --no-fail-fast --test-threads 4 '+("-E 'not test(vdf) and not test(test_various_ldes) and not test(bench)'" if os.environ.get('TESTS')=='fast' else "-E 'not test(test_various_ldes)'"),cwd=R,env=env)
            out=f'{SC}/out.json'
            sh(f'python3 /opt/vp/results.py {out} junit:{rep}',cwd=R)
            try: r=json.load(open(out)); miss=sorted(x for x in stable-set(r['passed']) if not(os.environ.get('TESTS')=='fast' and 'vdf' in x))
            except Exception as ex: miss=['? '+str(ex)+t.stdout[-500:]]
            msg+=' tests '+('ok' if not miss else 'BROKEN '+', '.join(miss))
    print(msg,flush=True)
    if os.environ.get('LOG'): open(os.environ['LOG'],'a').write(msg+'\n')
    sh(f'git -C {R} checkout -q -- .')
