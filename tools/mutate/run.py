#!/usr/bin/env python3
"""run.py GROUP [--jobs N]: mutation testing of the checks. Builds the checks of a group over a copy of /repo in which every
mutant sits behind MUT=<number>, then runs the checks that should notice each mutant, and lists those that stay quiet.
Everything lives in /tmp/mut; /repo in the builds is a bind mount in a namespace of its own."""
import subprocess,sys,os,re,json,shutil,concurrent.futures as cf,time
E='ethereum-consensus/src/'
EC='crate::mt'
ALL=['phase0','altair','bellatrix','capella','deneb','electra']
def ec(*fs): return [(E+f,'crate::mt') for f in fs]
# function name pattern -> checks, tried in order; the first one is the property it belongs to
OPS=[
 (r'process_slots?$|process_slot\b','C01'),
 (r'justification|weigh|is_in_inactivity|finality_delay|get_unslashed|get_matching','C02 C03'),
 (r'reward|penalt|delta|inactivity|get_base_reward|inclusion|proportional','C03 C11 C07 C08'),
 (r'registry_updates|churn_limit|activation|initiate_validator_exit|compute_exit_epoch','C04 C13 C10'),
 (r'process_pending|effective_balance|_reset|historical|slashings$|process_epoch|sync_committee_updates|participation_record|participation_flag_updates','C05 C02'),
 (r'block_header|randao|eth1','C06 C14'),
 (r'process_attestation|flag_indices|has_flag|add_flag|attesting_ind|indexed_attestation|get_committee_indices','C07 C08'),
 (r'slash|is_slashable','C08'),
 (r'deposit|add_validator|validator_from|get_validator_from','C09 C18 C13 C05'),
 (r'voluntary_exit','C10'),
 (r'sync_committee|sync_aggregate|fast_aggregate','C11 C05'),
 (r'payload|withdraw|bls_to_exec|credential|merge|execution','C12 C13 C14'),
 (r'request|receipt|consolidat|compound|excess|switch','C13 C05 C04'),
 (r'process_block|process_operations|state_transition|validate|verify_block|get_execution','C14'),
 (r'shuffl|committee|proposer|seed|sample','C15'),
 (r'upgrade|translate','C16'),
 (r'Executor|apply','C17'),
 (r'genesis|initialize','C18'),
 (r'domain|fork_digest|fork_data|signing|signed','C23'),
 (r'versioned_hash','C26 C12'),
 (r'.*','C14 C05 C01 C23 C15 C04'),
]
GROUPS={
 'trans': dict(files=ec(*[f'{f}/{m}.rs' for f in ALL for m in ('block_processing','epoch_processing','helpers','slot_processing') ]),map=OPS,bins={'ec':['c01','c02','c03','c04','c05','c06','c07','c08','c09','c10','c11','c12','c13','c14','c23','c26','c16','c17','c18'],'ec15':['c15']}),
 'misc': dict(files=ec(*[f'{f}/{m}.rs' for f in ALL for m in ('genesis','fork','execution_payload','state_transition','validator','networking','blob_sidecar','constants')]+['state_transition/executor.rs','state_transition/context.rs','state_transition/mod.rs','clock.rs','serde.rs','domains.rs','signing.rs','networks.rs','networking.rs','fork.rs','primitives.rs','builder/mod.rs','ssz/byte_list.rs','ssz/byte_vector.rs','ssz/mod.rs','crypto/bls.rs','crypto/kzg.rs','configs/mod.rs','lib.rs','error.rs','execution_engine.rs']),
   map=[(r'file:.*/genesis','C18'),(r'file:.*/fork\.rs','C16 C17 C24'),(r'file:.*execution_payload','C12 C17'),(r'file:.*executor','C17'),(r'file:.*src/(altair|bellatrix|capella|deneb|electra|phase0)/state_transition|file:.*state_transition/mod','C14 C17'),(r'file:.*context|file:.*config|file:.*networks\.rs','C21'),(r'file:.*clock','C22'),(r'file:.*serde','C24 C20'),(r'file:.*domains|file:.*signing','C23'),(r'file:.*networking|file:.*builder|file:.*validator','C32'),(r'file:.*primitives','C24 C20 C32'),(r'file:.*ssz','C19 C20 C24'),(r'file:.*bls','C25 C11'),(r'file:.*kzg|file:.*blob_sidecar','C26'),(r'.*','C14 C23')],
   bins={'ec':['c12','c14','c16','c17','c18','c19','c20','c21','c22','c23','c24','c25','c26','c32','c11']}),
 'types': dict(files=ec(*['types/'+f for f in ['beacon_block.rs','beacon_block_body.rs','beacon_state.rs','blinded_beacon_block.rs','blinded_beacon_block_body.rs','execution_payload.rs','execution_payload_header.rs','signed_beacon_block.rs','signed_blinded_beacon_block.rs']]),map=[(r'.*','C27')],bins={'ec':['c27']}),
 'tool': dict(files=[(E+'bin/ec/'+f,'ethereum_consensus::mt') for f in ['blobs/framing.rs','blobs/encode.rs','blobs/decode.rs','blobs/bundler.rs','blobs/command.rs','validator/mnemonic.rs','validator/keys.rs','validator/keystores.rs','bls.rs']],map=[(r'file:.*blobs','C29'),(r'.*','C30')],bins={'ecbin':['c29','c30']},envoff={'ECBIN_NOPROBE':'1'}),
 'api': dict(files=[('beacon-api-client/src/'+f,'ethereum_consensus::mt') for f in ['api_client.rs','types.rs','api_error.rs','serde.rs','lib.rs','cli/mod.rs','cli/config.rs']],map=[(r'.*','C31')],bins={'api':['c31']}),
 'gen': dict(files=[('spec-gen/src/'+f,'crate::mt') for f in ['generator.rs','visitors.rs','type_generator.rs','main.rs']],map=[(r'.*','C28')],bins={'specgen':['c28','spec-gen']}),
}
MT='''
pub fn mt(n: u32) -> bool { static M: std::sync::OnceLock<u32> = std::sync::OnceLock::new(); *M.get_or_init(|| std::env::var("MUT").ok().and_then(|x| x.parse().ok()).unwrap_or(0)) == n }
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def main():
    g=sys.argv[1]; G=GROUPS[g]; jobs=int(sys.argv[sys.argv.index('--jobs')+1]) if '--jobs' in sys.argv else 2
    only=sys.argv[sys.argv.index('--only')+1] if '--only' in sys.argv else None
    W=f'/tmp/mut/{g}'; os.makedirs(W,exist_ok=True)
    offp=f'{W}/off'; open(offp,'a').close()
    env=dict(os.environ,VERIF_TARGET=f'{W}/target',VERIF_DIR=f'{W}/verif',VERIF_NOSHRINK='1',**G.get('envoff',{}))
    if '--nobuild' not in sys.argv:
        sh(f'/usr/bin/rsync -a --delete --exclude target --exclude .git /repo/ {W}/repo/ || (rm -rf {W}/repo; mkdir {W}/repo; cd /repo; tar cf - --exclude=target --exclude=.git . | tar xf - -C {W}/repo)')
        sh(f'rm -rf {W}/verif; mkdir -p {W}/verif; cd /verif; tar cf - --exclude=target --exclude=.git --exclude=seeded . | tar xf - -C {W}/verif')
        for it in range(25):
            files=[f for f in G['files'] if os.path.exists('/repo/'+f[0])]
            for f,_ in files: shutil.copy('/repo/'+f,f'{W}/repo/{f}')
            open(f'{W}/list','w').write('\n'.join(f'{a} {b}' for a,b in files)+'\n')
            r=sh(f'/tmp/mut/tool/debug/mutate {W}/repo {W}/list {offp} {W}/mutants')
            if r.returncode: sys.exit(r.stderr)
            if any(b.startswith('crate::') for _,b in files) and g!='gen' or g in('tool','api'):
                shutil.copy('/repo/ethereum-consensus/src/lib.rs',f'{W}/repo/ethereum-consensus/src/lib.rs') if not any(f.endswith('ethereum-consensus/src/lib.rs') for f,_ in files) else None
                open(f'{W}/repo/ethereum-consensus/src/lib.rs','a').write(MT)
            if g=='gen':
                for x in ('main.rs','lib.rs'):
                    if os.path.exists(f'{W}/repo/spec-gen/src/{x}'): open(f'{W}/repo/spec-gen/src/{x}','a').write(MT)
            bad=set(); errs=''
            for d,bs in G['bins'].items():
                c=f'mount --bind {W}/repo /repo && cd {W}/verif/{d} && . ../env.sh && cargo build --locked --message-format=json '+' '.join('--bin '+b for b in bs)
                r=sh(f"unshare -Urm bash -c '{c}'",env=env)
                for l in r.stdout.splitlines():
                    try: j=json.loads(l)
                    except: continue
                    m=j.get('message')
                    if not m or m.get('level')!='error': continue
                    errs+=m.get('rendered','')[:400]+'\n'
                    # spans, and those of the notes
                    sp=list(m['spans'])
                    for s in sp:
                        fn=s['file_name']
                        if not fn.startswith('/repo') : fn='/repo/'+fn
                        p=fn.replace('/repo/',f'{W}/repo/',1)
                        if not os.path.exists(p): continue
                        L=open(p).read().split('\n')
                        found=set()
                        for w in (0,1,2,4,8,15):
                            for x in range(max(0,s['line_start']-1-w),min(len(L),s['line_end']+w)):
                                found|={int(q) for q in re.findall(r'mt *\( *(\d+)u32',L[x])}
                            if found: break
                        if s.get('is_primary') or not bad: bad|=found
                if r.returncode and not bad:
                    sys.exit('build fails without a culprit:\n'+errs[:3000]+r.stderr[-3000:])
                if bad: break
            print(f'round {it}: {len(bad)} mutants do not compile',flush=True)
            if not bad: break
            open(offp,'a').write(' '.join(map(str,bad))+'\n')
        else: sys.exit('no end of errors')
    muts=[l.rstrip('\n').split('\t') for l in open(f'{W}/mutants')]
    print(len(muts),'mutants',flush=True)
    resp=f'{W}/results'; done={}
    if os.path.exists(resp) and '--redo' not in sys.argv:
        for l in open(resp):
            a=l.rstrip('\n').split('\t'); done[(a[2],a[3],a[4])]=a
    def checks(m):
        n,f,fn,what=m
        for pat,c in G['map']:
            if pat.startswith('file:'):
                if re.search(pat[5:],f): return c.split()
            elif re.search(pat,fn.split('::')[-1]) or re.search(pat,fn): return c.split()
    dirof={b:d for d,bs in G['bins'].items() for b in bs}
    def one(m):
        tried=[]
        for c,scale in [(c,'0.06') for c in checks(m)]+[(c,'0.5') for c in checks(m)[:1]]:
            if c=='C28' and scale!='0.5': continue
            b=c.lower()
            cmd=f"mount --bind {W}/repo /repo && exec timeout 400 {W}/target/debug/{b} --scale {scale}"
            vd=f'{W}/out/{m[0]}'; os.makedirs(vd+'/evidence',exist_ok=True)
            for x in ('known-findings.txt',):
                shutil.copy(f'/verif/{x}',vd)
            for x in ('specgen','refmodel','ec','tools'):
                if not os.path.exists(f'{vd}/{x}'): os.symlink(f'{W}/verif/{x}',f'{vd}/{x}')
            r=sh(f"unshare -Urm bash -c '{cmd}'",env=dict(env,MUT=m[0],VERIF_DIR=vd,VERIF_THREADS='2',CARGO_TARGET_DIR=f'{W}/target',CARGO_NET_OFFLINE='true',RUSTUP_TOOLCHAIN='1.85.0-x86_64-unknown-linux-gnu'))
            shutil.rmtree(vd,ignore_errors=True)
            tried.append(f'{c}@{scale}={r.returncode}')
            if r.returncode==1: return m,'killed' if scale!='0.5' else 'killed-late',tried
            if r.returncode!=0:
                return m,'odd',tried+[r.stderr[-200:].replace('\n',' ').replace('\t',' ')]
        return m,'SURVIVED',tried
    todo=[m for m in muts if (m[1],m[2],m[3]) not in done or ('--again' in sys.argv and done[(m[1],m[2],m[3])][0][:6]!='killed')]
    if only: todo=[m for m in todo if re.search(only,m[1]+' '+m[2]+' '+m[3])]
    t0=time.time(); k=0
    with cf.ThreadPoolExecutor(jobs) as ex, open(resp,'a') as out:
        for m,s,t in (f.result() for f in cf.as_completed([ex.submit(one,m) for m in todo])):
            out.write('\t'.join([s,m[0],m[1],m[2],m[3],' '.join(t)])+'\n'); out.flush(); k+=1
            if not s.startswith('killed'): print(s,m[0],m[1].replace(E,''),m[2],'|',m[3][:150],'|',' '.join(t)[:200],flush=True)
            if k%100==0: print(f'-- {k}/{len(todo)} {time.time()-t0:.0f}s',flush=True)
main()
