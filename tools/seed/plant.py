#!/usr/bin/env python3
"""Development aid: turns an edit of the source into /verif/seeded/<id>/.
Usage: plant.py BUGS.py [id...]. Needs /tmp/seed: repo (a copy of /repo), build.sh,
test.sh (the task's scripts with the path changed), base-parse and corpora."""
import subprocess, sys, os, json, glob, shutil, concurrent.futures as cf
S='/tmp/seed'; R=S+'/repo'; OUT=os.environ.get('PLANT_OUT','/verif/seeded')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
def run(exe,f):
    if os.path.isdir(f): f=f+'/nb/'+open(f+'/toc').read()
    try: r=subprocess.run([exe,f],capture_output=True,timeout=60,env={})
    except subprocess.TimeoutExpired: return (999,b'')
    rc=r.returncode
    if rc==101 and b'`Result::unwrap()`' not in r.stderr: rc=666 # a panic inside the library
    if rc<0: rc=666
    return (rc,r.stdout)
CRASH="""use onenote_parser::Parser;
// Reading the file must come to a result or an error.
fn main() {
    let d = std::env::args().nth(1).unwrap();
    if let Ok(b) = std::fs::read(format!("{d}/case.one")) {
        let _ = Parser::new().parse_section_buffer(&b, std::path::Path::new("case.one"));
    } else {
        let _ = Parser::new().parse_notebook(std::path::Path::new(&format!("{d}/case.onetoc2")));
    }
}
"""
DEMO='''#!/bin/sh
# Reads one file with the command-line tool and compares what it reports with
# what the file stores (case.expected: exit status, then the report).
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
timeout 120 ./target/debug/onenote-parse "$d/CASE" > "$t/out" 2> "$t/err"
echo "exit $?" > "$t/all"
cat "$t/out" >> "$t/all"
cmp "$t/all" "$d/case.expected" && exit 0
diff "$t/all" "$d/case.expected" | head -20
exit 1
'''
BOOK='''#!/bin/sh
# Reads a notebook with the command-line tool and compares what it reports with
# what its files store (case.expected: exit status, then the report).
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
cp -r "$d/case/nb" "$t/nb" || exit 2
timeout 120 ./target/debug/onenote-parse "$t/nb/$(cat "$d/case/toc")" > "$t/out" 2> "$t/err"
echo "exit $?" > "$t/all"
cat "$t/out" >> "$t/all"
cmp "$t/all" "$d/case.expected" && exit 0
diff "$t/all" "$d/case.expected" | head -20
exit 1
'''
RUST='''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
mkdir "$t/src" "$t/work" && cp "$d/demo.rs" "$t/src/main.rs" || exit 2
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
onenote_parser = { path = "$r" }
X
[ -f "$r/Cargo.lock" ] && cp "$r/Cargo.lock" "$t/Cargo.lock"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
(cd "$t" && cargo build --quiet --offline) || exit 2
cd "$t/work" && timeout 120 "$t/target/debug/demo" "$d"
'''
def via_check(b,d):
    """No case in the corpora: let the property's check look for one."""
    if sh(f'git -C /repo apply {d}/patch.diff').returncode: return None
    try: r=sh(f"sh check.sh {b['prop']} quick",cwd='/verif')
    finally: sh('git -C /repo checkout -q -- .')
    if r.returncode!=1: print('   MISSED by the check',r.returncode,r.stdout[-200:]); return None
    print('   caught by the check',[l for l in r.stdout.splitlines() if 'VIOLATION' in l])
    j=[l.split('replay=')[1] for l in r.stdout.splitlines() if 'VIOLATION' in l][0][:-5]
    for k in ['case','variant','fault','reference','whole','damaged','input']:
        for e in ['.one','.onetoc2']:
            if os.path.exists(f'{j}-{k}{e}'):
                shutil.copy(f'{j}-{k}{e}',f'{S}/via{e}'); return f'{S}/via{e}'
    print('   no usable file',glob.glob(j+'*')); return None
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    want=sys.argv[2:]
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        if not want and os.path.exists(f"{OUT}/{b['id']}/demo.sh"): continue
        print('==',b['id'],flush=True)
        sh(f'git -C {R} checkout -q -- .')
        ok=True
        for f,o,n in b['edits']:
            p=f'{R}/{f}'; s=open(p).read()
            if s.count(o)!=1: print('   edit does not apply',s.count(o),f,repr(o)[:80]); ok=False; break
            open(p,'w').write(s.replace(o,n))
        if not ok: continue
        r=sh(f'bash {S}/build.sh')
        if r.returncode: print('   BUILD',r.stdout[-500:],'\n'.join(l for l in r.stderr.splitlines() if 'error' in l or '-->' in l)[:1500]); continue
        if 'warning' in r.stderr: print('   warnings', [l for l in r.stderr.splitlines() if l.startswith('warning')][:3])
        sh(f'bash {S}/test.sh {S}/o.json')
        o=json.load(open(f'{S}/o.json'))
        miss=stable-set(o['passed'])
        if miss: print('   TESTS FAIL',miss); continue
        diff=sh(f'git -C {R} diff').stdout
        # only original lines?
        d=f"{OUT}/{b['id']}"
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/patch.diff','w').write(diff)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        if 'sh' in b:
            open(d+'/demo.sh','w').write(b['sh'])
            for k,v in b.get('files',{}).items(): shutil.copy(v,f'{d}/{k}')
            base=sh(f'sh {d}/demo.sh',cwd='/repo'); bad=sh(f'sh {d}/demo.sh',cwd=R)
            print('   shell demo base',base.returncode,base.stdout[-200:],base.stderr[-300:] if base.returncode else '','| patched',bad.returncode,(bad.stdout+bad.stderr)[-300:])
            if base.returncode or not bad.returncode: shutil.rmtree(d); print('   DEMO BAD')
            continue
        if 'rust' in b:
            open(d+'/demo.rs','w').write(b['rust']); open(d+'/demo.sh','w').write(RUST)
            for k,v in b.get('files',{}).items(): shutil.copy(v,f'{d}/{k}')
            if 'pick' in b:
                l=sorted(glob.glob(f"{S}/{b['pick']}/*.one"),key=os.path.getsize); shutil.copy(l[b.get('nth',len(l)//4)],d+'/case.one')
            if b.get('via'):
                f=via_check(b,d)
                if f: shutil.copy(f,d+'/case.one')
            if 'pickall' in b:
                for i,f in enumerate(sorted(glob.glob(f"{S}/{b['pickall']}/*.one"),key=os.path.getsize)[b.get("from",0):][:100]): shutil.copy(f,f'{d}/p{i:03}.one')
            base=sh(f'sh {d}/demo.sh',cwd='/repo'); bad=sh(f'sh {d}/demo.sh',cwd=R)
            print('   rust demo base',base.returncode,base.stdout[-200:],base.stderr[-300:] if base.returncode else '','| patched',bad.returncode,(bad.stdout+bad.stderr)[-300:])
            if base.returncode or not bad.returncode: shutil.rmtree(d); print('   DEMO BAD')
            continue
        exe=f'{R}/target/debug/onenote-parse'
        shutil.copy(exe,f'{S}/bad-parse')
        files=b.get('case') and [b['case']] or [f for c in b.get('corpora',['doc','wild','long']) for f in sorted(glob.glob(f'{S}/{c}/*'))]
        def one(f):
            x=run(S+'/base-parse',f); y=run(S+'/bad-parse',f)
            return (f,x,y)
        with cf.ThreadPoolExecutor(8) as ex: res=list(ex.map(one,files))
        df=[(f,x,y) for f,x,y in res if x!=y]
        if b.get('crash'): df=[t for t in df if t[2][0]!=t[1][0]]
        print('   differing',len(df),'of',len(res))
        if not df and not b.get('novia') and not os.environ.get('NOVIA'):
            f=via_check(b,d)
            if f:
                df=[t for t in [one(f)] if t[1]!=t[2]]
                if not df: print('   same output for its case')
        if not df:
            print('   NO DEMO'); shutil.copy(d+'/patch.diff',f"{S}/{b['id']}.diff"); shutil.rmtree(d); continue
        def size(f): return os.path.getsize(f) if os.path.isfile(f) else sum(size(os.path.join(f,g)) for g in os.listdir(f))
        f,x,y=min(df,key=lambda t:size(t[0])+len(t[1][1]))
        if os.path.isdir(f):
            shutil.copytree(f,d+'/case'); name='case'
        else:
            name='case'+os.path.splitext(f)[1]; shutil.copy(f,f'{d}/{name}')
        if b.get('crash'):
            open(d+'/demo.rs','w').write(CRASH); open(d+'/demo.sh','w').write(RUST)
            a=sh(f'sh {d}/demo.sh',cwd='/repo'); c=sh(f'sh {d}/demo.sh',cwd=R)
            print('   crash demo',a.returncode,c.returncode)
            if a.returncode or not c.returncode: print('   DEMO BAD',a.stderr[-300:])
            continue
        x=run(S+'/base-parse',f'{d}/{name}'); y=run(S+'/bad-parse',f'{d}/{name}')
        open(d+'/case.expected','wb').write(b'exit %d\n'%x[0]+x[1])
        open(d+'/demo.sh','w').write(BOOK if name=='case' else DEMO.replace('CASE',name))
        print('   case',os.path.basename(f),size(f),'exit',x[0],'->',y[0])
        a=sh(f'sh {d}/demo.sh',cwd='/repo').returncode; c=sh(f'sh {d}/demo.sh',cwd=R).returncode
        if a or not c: print('   DEMO BAD',a,c)
    sh(f'git -C {R} checkout -q -- .')
main()
