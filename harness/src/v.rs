//! A neutral tree the generator's expectation and the parser's report are both
//! rendered into, with a structural diff.
use std::fmt::Write;

#[derive(Clone, PartialEq)]
pub enum V {
    N,
    B(bool),
    U(u64),
    I(i64),
    /// f32 by bits
    F(u32),
    S(String),
    Y(Vec<u8>),
    L(Vec<V>),
    M(&'static str, Vec<(&'static str, V)>),
}
pub fn u<T: Into<u64>>(x: T) -> V {
    V::U(x.into())
}
pub fn f(x: f32) -> V {
    V::F(x.to_bits())
}
pub fn s<T: AsRef<str>>(x: T) -> V {
    V::S(x.as_ref().to_string())
}
pub fn o<T>(x: Option<T>, g: impl FnOnce(T) -> V) -> V {
    x.map(g).unwrap_or(V::N)
}
pub fn e<T: std::fmt::Debug>(x: T) -> V {
    V::S(format!("{x:?}"))
}
pub fn l<T>(x: impl IntoIterator<Item = T>, g: impl FnMut(T) -> V) -> V {
    V::L(x.into_iter().map(g).collect())
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::N => f.write_str("-"),
            V::B(b) => write!(f, "{b}"),
            V::U(u) => write!(f, "{u}"),
            V::I(i) => write!(f, "{i}i"),
            V::F(b) => write!(f, "{:?}f", f32::from_bits(*b)),
            V::S(s) => write!(f, "{s:?}"),
            V::Y(y) => {
                write!(f, "bytes[{}]", y.len())?;
                if y.len() <= 8 { write!(f, "{y:02x?}") } else { write!(f, "{:02x?}..fnv{:08x}", &y[..4], fnv(y) as u32) }
            }
            V::L(l) => f.debug_list().entries(l).finish(),
            V::M(t, m) => {
                write!(f, "{t}{{")?;
                let mut first = true;
                for (k, v) in m {
                    if *v != V::N {
                        if !first {
                            f.write_str(", ")?
                        }
                        first = false;
                        write!(f, "{k}: {v:?}")?;
                    }
                }
                f.write_str("}")
            }
        }
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
impl V {
    pub fn get(&self, k: &str) -> &V {
        match self {
            V::M(_, m) => m.iter().find(|(n, _)| *n == k).map(|(_, v)| v).unwrap_or(&V::N),
            _ => &V::N,
        }
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut V> {
        match self {
            V::M(_, m) => m.iter_mut().find(|(n, _)| *n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn list(&self) -> &[V] {
        match self {
            V::L(l) => l,
            _ => &[],
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            V::M(t, _) => t,
            _ => "",
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            V::S(s) => Some(s),
            _ => None,
        }
    }
    pub fn hash(&self) -> u64 {
        fnv(format!("{self:?}").as_bytes())
    }
    /// Number of nodes with the given tag anywhere in the tree.
    pub fn count(&self, tag: &str) -> usize {
        match self {
            V::L(l) => l.iter().map(|v| v.count(tag)).sum(),
            V::M(t, m) => (*t == tag) as usize + m.iter().map(|(_, v)| v.count(tag)).sum::<usize>(),
            _ => 0,
        }
    }
    pub fn visit<'a>(&'a self, g: &mut dyn FnMut(&'a V)) {
        g(self);
        match self {
            V::L(l) => l.iter().for_each(|v| v.visit(g)),
            V::M(_, m) => m.iter().for_each(|(_, v)| v.visit(g)),
            _ => {}
        }
    }
}

#[derive(Clone, Debug)]
pub struct Diff {
    /// Node kinds the difference is about besides `tag` itself.
    pub kinds: Vec<&'static str>,
    pub path: String,
    pub tag: &'static str,
    pub field: &'static str,
    pub what: String,
}
pub fn diff(want: &V, got: &V) -> Vec<Diff> {
    let mut out = vec![];
    let mut path = String::new();
    rec(want, got, &mut path, "", "", &mut out);
    out
}
fn cut(v: &V) -> String {
    let s = format!("{v:?}");
    if s.chars().count() > 160 { s.chars().take(160).collect::<String>() + "…" } else { s }
}
fn rec(a: &V, b: &V, path: &mut String, tag: &'static str, field: &'static str, out: &mut Vec<Diff>) {
    if a == b || out.len() > 400 {
        return;
    }
    let n = path.len();
    let here = |what: String, path: &str, kinds: Vec<&'static str>| Diff { kinds, path: path.to_string(), tag, field, what };
    match (a, b) {
        (V::M(t1, m1), V::M(t2, m2)) if t1 == t2 && m1.len() == m2.len() => {
            for ((k, x), (_, y)) in m1.iter().zip(m2) {
                let _ = write!(path, ".{k}");
                if *t1 == "align" { rec(x, y, path, tag, field, out) } else { rec(x, y, path, t1, k, out) }
                path.truncate(n);
            }
        }
        (V::L(l1), V::L(l2)) => {
            if l1.len() != l2.len() {
                // kinds whose number differs; the items are not paired up
                let mut kinds: Vec<&'static str> = l1.iter().chain(l2).map(|v| v.tag()).collect();
                kinds.sort();
                kinds.dedup();
                kinds.retain(|k| l1.iter().filter(|v| v.tag() == *k).count() != l2.iter().filter(|v| v.tag() == *k).count());
                out.push(here(format!("expected {} items, got {}: expected {} got {}", l1.len(), l2.len(), cut(a), cut(b)), path, kinds));
                return;
            }
            for (i, (x, y)) in l1.iter().zip(l2).enumerate() {
                let _ = write!(path, "[{i}]");
                rec(x, y, path, tag, field, out);
                path.truncate(n);
            }
        }
        _ => {
            let kinds = vec![a.tag(), b.tag()];
            out.push(here(format!("expected {} got {}", cut(a), cut(b)), path, kinds))
        }
    }
}
/// Map node; fields are kept sorted so that both renderings agree.
pub fn m(tag: &'static str, mut fields: Vec<(&'static str, V)>) -> V {
    fields.sort_by_key(|x| x.0);
    V::M(tag, fields)
}
