# writes ec/src/wrapped.rs: the accessors of the fork-agnostic containers, from the specification's field lists
import re
T='/repo/ethereum-consensus/src/types/'
def snake(c): return re.sub(r'(?<!^)([A-Z])',r'_\1',c).lower()
C=['BeaconState','BeaconBlock','BeaconBlockBody','BlindedBeaconBlock','BlindedBeaconBlockBody','ExecutionPayload','ExecutionPayloadHeader','SignedBeaconBlock','SignedBlindedBeaconBlock']
out=['''//! Every accessor of the fork-agnostic containers (minimal preset). Written by tools/wrapped.py.
use crate::containers::settle;
use crate::*;
use ec::types;

pub enum Shown {
    Bytes(Vec<u8>),
    Absent,
    /// a fork-agnostic view: its fork, its content, its root
    View(String, Vec<u8>, H),
}
pub fn bytes<T: ssz_rs::Serialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize(&mut b).expect("serialize");
    b
}
pub fn root<T: ssz_rs::HashTreeRoot>(x: &T) -> H {
    let r = x.hash_tree_root().expect("hash_tree_root");
    let mut h = [0; 32];
    h.copy_from_slice(r.as_ref());
    h
}
pub trait Show {
    fn show(self) -> Shown;
}
impl<T: ssz_rs::Serialize> Show for &T {
    fn show(self) -> Shown {
        Shown::Bytes(bytes(self))
    }
}
impl<T: Show> Show for Option<T> {
    fn show(self) -> Shown {
        self.map(Show::show).unwrap_or(Shown::Absent)
    }
}
macro_rules! plain {
    ($($t:ty)*) => { $( impl Show for $t { fn show(self) -> Shown { Shown::Bytes(bytes(&self)) } } )* };
}
plain!(u64 usize ec::primitives::Root);
pub trait Put {
    /// store a value read from SSZ; false when there is no such field
    fn put(self, b: &[u8]) -> bool;
}
impl<T: ssz_rs::Deserialize> Put for &mut T {
    fn put(self, b: &[u8]) -> bool {
        *self = T::deserialize(b).expect("deserialize");
        true
    }
}
impl<T: Put> Put for Option<T> {
    fn put(self, b: &[u8]) -> bool {
        self.is_some_and(|x| x.put(b))
    }
}
#[derive(Default)]
pub struct Report {
    /// by view ("value", "shared", "exclusive")
    pub version: Vec<(&'static str, String)>,
    pub root: Vec<(&'static str, H)>,
    pub reads: Vec<(&'static str, &'static str, Shown)>,
    /// forks for which a conversion gave a value, and that value
    pub conversions: Vec<(&'static str, &'static str, Vec<u8>)>,
    pub ssz: Vec<u8>,
    pub json: String,
    /// (view, whether the field was there, the value afterwards)
    pub writes: Vec<(&'static str, bool, Vec<u8>)>,
    /// fork and content of the JSON read back
    pub back: Vec<Result<(String, Vec<u8>), String>>,
}
pub struct Wrap {
    pub name: &'static str,
    pub from: Fork,
    /// (fork, value, field to write and its new value)
    pub run: fn(Fork, &[u8], &str, &[u8]) -> Got<Report>,
    /// the mainnet form: fork, SSZ, root, JSON, and fork and content of the JSON read back
    pub large: fn(Fork, &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))>,
}
''']
tab=[]
src={}
for c in C:
    src[c]=open(T+snake(c)+'.rs').read()
def enum(c,name):
    s=src[c]
    m=re.search(r'pub enum %s<(.*?)> \{'%name,s,re.S)
    return re.findall(r'const (\w+): usize',m.group(1)) if m else None
def fns(c,name):
    s=src[c]
    parts=re.split(r'\npub enum ',s)
    for p in parts[1:]:
        if re.match(name+r'\b',p): return re.findall(r'pub fn (\w+)\(',p)
    return []
FORKS=['phase0','altair','bellatrix','capella','deneb']
for c in C:
    own=fns(c,c)
    forks=[f for f in FORKS if f in own]
    for kind in ['Ref','RefMut']:
        k=enum(c,c+kind)
        if k is None: continue
        decl=', '.join('const %s: usize'%x for x in k); use=', '.join(k)
        arms=lambda e: ' '.join('types::%s%s::%s(x) => %s,'%(c,kind,f.capitalize(),e) for f in forks)
        out.append('''impl<'a, %s> Show for types::%s%s<'a, %s> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { %s };
        Shown::View(v, b, r)
    }
}
'''%(decl,c,kind,use,arms('bytes(*x)')))
        if kind=='RefMut':
            out.append('''impl<'a, %s> Put for types::%s%s<'a, %s> {
    fn put(self, b: &[u8]) -> bool {
        match self { %s }
    }
}
'''%(decl,c,kind,use,arms('x.put(b)')))
def con(c): return ', '.join('{ ec::%s::minimal::%s }'%('phase0' if x=='PENDING_ATTESTATIONS_BOUND' else 'deneb',x) for x in enum(c,c+'Ref'))
for c in C:
    own=fns(c,c)
    forks=[f for f in FORKS if f in own]
    fields=[f for f in own if f not in forks and f!='version' and not f.endswith('_mut')]
    rd=lambda v,x: ' '.join('r.reads.push(("%s", "%s", Show::show(%s.%s())));'%(v,f,x,f) for f in fields)
    cv=lambda v,x: ' '.join('if let Some(y) = %s.%s() { r.conversions.push(("%s", "%s", bytes(y))); }'%(x,f,v,f) for f in forks)
    wr=lambda x,names: 'match field { %s _ => panic!("{field}") }'%' '.join('"%s" => Put::put(%s.%s_mut(), new),'%(f,x,f) for f in names)
    body=[]
    hasref=enum(c,c+'Ref') is not None
    for f in forks:
        F=f.capitalize()
        s='''        Fork::%s => {
            let x = ec::%s::minimal::%s::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::%s::%s(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            %s
            %s
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::%s>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = %s;
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::%s::%s(x.clone());
            r.conversions.extend(own.%s_mut().map(|y| ("value to write", "%s", bytes(y))));
'''%(F,f,c,c,F,rd('value','own'),cv('value','own'),c,wr('own',fields),c,F,f,f)
        for g in forks:
            if g!=f: s+='            if own.%s_mut().is_some() { r.conversions.push(("value to write", "%s", vec![])); }\n'%(g,g)
        if hasref:
            rf=[q for q in fns(c,c+'Ref') if q not in forks and q!='version']
            assert set(rf)==set(fields),(c,set(rf)^set(fields))
            mf=[q for q in fns(c,c+'RefMut') if q not in forks and q!='version' and not q.endswith('_mut')]
            assert set(mf)==set(fields)
            s+='''            let shared = types::%sRef::<%s>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            %s
            %s
            let mut y = x.clone();
            let %s excl = types::%sRefMut::<%s>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            %s
            %s
            let there = %s;
            r.writes.push(("exclusive", there, bytes(&y)));
'''%(c,con(c),rd('shared','shared'),cv('shared','shared'),'mut',c,con(c),rd('exclusive','excl'),cv('exclusive','excl'),wr('excl',fields))
        s+='        }\n'
        body.append(s)
    fn=snake(c)
    out.append('''fn %s(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
%s        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
'''%(fn,''.join(body)))
    out.append('''fn %s_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
%s            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::%s = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
'''%(fn,''.join('            Fork::%s => types::mainnet::%s::%s(ec::%s::mainnet::%s::deserialize(b).map_err(|e| format!("{e:?}"))?),\n'%(f.capitalize(),c,f.capitalize(),f,c) for f in forks),c))
    tab.append('    Wrap { name: "%s", from: Fork::%s, run: %s, large: %s_large },'%(c,forks[0].capitalize(),fn,fn))
out.append('pub const WRAPS: &[Wrap] = &[\n%s\n];\n'%'\n'.join(tab))
open('/verif/ec/src/wrapped.rs','w').write(''.join(out))
