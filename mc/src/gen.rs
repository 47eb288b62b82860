//! Finite, index-addressable sets of byte strings. Every space the checker explores is one of these:
//! `count` says how many members there are and `put(i)` writes the i-th, so a run that walks
//! 0..count has covered the whole set, in any order and from any number of threads.
use std::sync::Arc;

#[derive(Clone)]
pub enum G {
    Lit(Vec<u8>),
    Cat(Vec<G>),
    Alt(Vec<G>),
    /// between min and max copies, each chosen independently
    Seq(Box<G>, usize, usize),
    /// exactly n copies of the SAME choice, for every n in the list
    Pump(Box<G>, Vec<usize>),
    Byte(u8, u8),
    Fun(u64, Arc<dyn Fn(u64, &mut Vec<u8>) + Send + Sync>),
}

pub fn l(b: impl AsRef<[u8]>) -> G {
    G::Lit(b.as_ref().to_vec())
}
/// alternatives separated by "|"
pub fn t(s: &str) -> G {
    G::Alt(s.split('|').map(l).collect())
}
pub fn ts(v: &[&str]) -> G {
    G::Alt(v.iter().map(l).collect())
}
pub fn tb(v: &[&[u8]]) -> G {
    G::Alt(v.iter().map(l).collect())
}
pub fn cat(v: Vec<G>) -> G {
    G::Cat(v)
}
pub fn alt(v: Vec<G>) -> G {
    G::Alt(v)
}
pub fn opt(g: G) -> G {
    G::Alt(vec![l(""), g])
}
pub fn seq(g: G, min: usize, max: usize) -> G {
    G::Seq(Box::new(g), min, max)
}
pub fn pump(g: G, n: impl IntoIterator<Item = usize>) -> G {
    G::Pump(Box::new(g), n.into_iter().collect())
}
pub fn fun(n: u64, f: impl Fn(u64, &mut Vec<u8>) + Send + Sync + 'static) -> G {
    G::Fun(n, Arc::new(f))
}
pub fn bytes() -> G {
    G::Byte(0, 255)
}
/// every single-edit neighbour of a text: byte deleted, replaced by or preceded by any byte of `with`
pub fn edits1(base: &[u8], with: &[u8]) -> G {
    let (b, w) = (base.to_vec(), with.to_vec());
    let (n, k) = (b.len() as u64, w.len() as u64);
    // 0: itself; then n deletions; n*k substitutions; (n+1)*k insertions
    fun(1 + n + n * k + (n + 1) * k, move |i, out| {
        let mut v = b.clone();
        if i == 0 {
        } else if i <= n {
            v.remove((i - 1) as usize);
        } else if i <= n + n * k {
            let j = i - 1 - n;
            v[(j / k) as usize] = w[(j % k) as usize];
        } else {
            let j = i - 1 - n - n * k;
            v.insert((j / k) as usize, w[(j % k) as usize]);
        }
        out.extend_from_slice(&v);
    })
}
/// every text that differs from this one in one byte (with the case-flipped byte among the replacements)
pub fn substitutions(base: &[u8], with: &[u8]) -> G {
    let (b, w) = (base.to_vec(), with.to_vec());
    let (n, k) = (b.len() as u64, w.len() as u64 + 1);
    fun(n * k, move |i, out| {
        let (p, j) = ((i / k) as usize, (i % k) as usize);
        let s = out.len();
        out.extend_from_slice(&b);
        out[s + p] = if j < w.len() { w[j] } else { b[p] ^ 0x20 };
    })
}
/// a token inserted at any one position of the text (also at both ends), or replacing 0..=cut bytes there
pub fn insert_token(base: &[u8], toks: &[&[u8]], cut: usize) -> G {
    let b = base.to_vec();
    let tk: Vec<Vec<u8>> = toks.iter().map(|t| t.to_vec()).collect();
    let (n, k, c) = (b.len() as u64 + 1, tk.len() as u64, cut as u64 + 1);
    fun(n * k * c, move |i, out| {
        let p = (i % n) as usize;
        let r = i / n;
        let t = &tk[(r % k) as usize];
        let cut = ((r / k) as usize).min(b.len() - p);
        out.extend_from_slice(&b[..p]);
        out.extend_from_slice(t);
        out.extend_from_slice(&b[p + cut..]);
    })
}
/// two tokens inserted at any two positions
pub fn insert2(base: &[u8], toks: &[&[u8]]) -> G {
    let b = base.to_vec();
    let tk: Vec<Vec<u8>> = toks.iter().map(|t| t.to_vec()).collect();
    let (n, k) = (b.len() as u64 + 1, tk.len() as u64);
    fun(n * n * k * k, move |i, out| {
        let (p, r) = ((i % n) as usize, i / n);
        let (q, r) = ((r % n) as usize, r / n);
        let (a, z) = (&tk[(r % k) as usize], &tk[(r / k) as usize]);
        let (p, q) = (p.min(q), p.max(q));
        out.extend_from_slice(&b[..p]);
        out.extend_from_slice(a);
        out.extend_from_slice(&b[p..q]);
        out.extend_from_slice(z);
        out.extend_from_slice(&b[q..]);
    })
}
/// every piece of 1 to `longest` bytes of the text, written `n` times in a row, for every n of the list
pub fn stretch(base: &[u8], longest: usize, sizes: &[usize]) -> G {
    let (b, z) = (base.to_vec(), sizes.to_vec());
    let (n, k, m) = (b.len() as u64, longest as u64, z.len() as u64);
    fun(n * k * m, move |i, out| {
        let p = (i % n) as usize;
        let r = i / n;
        let q = (p + 1 + (r % k) as usize).min(b.len());
        out.extend_from_slice(&b[..p]);
        for _ in 0..z[(r / k) as usize] {
            out.extend_from_slice(&b[p..q]);
        }
        out.extend_from_slice(&b[q..]);
    })
}
/// what stands within a small change of a text: any one byte changed to any other, inserted or left out; a
/// token of the grammars written anywhere, also over one or two bytes; any short piece of it repeated
pub fn near(base: &[u8]) -> G {
    let all: Vec<u8> = (0..=255).collect();
    let sizes: &[usize] = if base.len() <= 100 { &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 64, 100, 128, 256, 512, 1000, 2048, 4097] } else { &[2, 3, 5, 9, 17, 65, 257, 1025] };
    alt(vec![
        edits1(base, &all),
        insert_token(base, &[b"\r\n ", b"\r\n", b"  ", b"(c)", b"(c(d)\\))", b"\"q\"", b"\"\"", b"\\\"", b"=?utf-8?q?=C3=A9?=", b"=?", b"?=", b"\xc3\xa9", b"\xe2\x82\xac", b"a@b", b"<a@b>", b"[d]", b"--", b"..", b";a=b", b"*0*=", b"utf-8''", b"%41", b"=41", b"=\r\n", b"00", b"+0000", b"1 Jan 2020 10:20 +0000", b"g:;", b"a b"], 2),
        stretch(base, 4, sizes),
    ])
}
/// any two bytes of the text changed to one of `with` each, or left out
pub fn edits2(base: &[u8], with: &[u8]) -> G {
    let (b, w) = (base.to_vec(), with.to_vec());
    let (n, k) = (b.len() as u64, w.len() as u64 + 1);
    fun(n * (n - 1) / 2 * k * k, move |i, out| {
        let (e, mut r) = (i % (k * k), i / (k * k));
        // the r-th pair p < q
        let mut p = 0;
        while r >= n - 1 - p {
            r -= n - 1 - p;
            p += 1;
        }
        let q = p + 1 + r;
        for (j, c) in b.iter().enumerate() {
            let e = if j as u64 == p { e % k } else if j as u64 == q { e / k } else {
                out.push(*c);
                continue;
            };
            out.extend(w.get(e as usize));
        }
    })
}
/// every pair of small changes, with the bytes that mean something to one of the grammars
pub fn near2(base: &[u8]) -> G {
    edits2(base, b"\"\\()=;<>@, :%")
}
/// every contiguous piece of the text
pub fn pieces(base: &[u8]) -> G {
    let b = base.to_vec();
    let n = b.len() as u64 + 1;
    fun(n * n, move |i, out| {
        let (p, q) = ((i % n) as usize, (i / n) as usize);
        if p <= q {
            out.extend_from_slice(&b[p..q]);
        } else {
            // the complement: what is left when the piece is cut out
            out.extend_from_slice(&b[..q]);
            out.extend_from_slice(&b[p..]);
        }
    })
}
/// every permutation of every sub-multiset is too many; every ordered choice of up to `max` items
pub fn arrangements(items: &[&str], min: usize, max: usize) -> G {
    seq(ts(items), min, max)
}
/// every way to write the ASCII letters of a name in upper or lower case, up to 2^16 of them
pub fn casings(name: &str) -> G {
    let b = name.as_bytes().to_vec();
    let letters: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_alphabetic()).collect();
    if letters.len() <= 12 {
        let n = 1u64 << letters.len();
        return fun(n, move |i, out| {
            let s = out.len();
            out.extend_from_slice(&b);
            for (k, p) in letters.iter().enumerate() {
                out[s + p] = if i >> k & 1 == 1 { b[*p].to_ascii_uppercase() } else { b[*p].to_ascii_lowercase() };
            }
        });
    }
    // long names: all-lower, all-upper and canonical, each with every pair of letters flipped
    let m = letters.len() as u64;
    fun(3 * m * m, move |i, out| {
        let s = out.len();
        let (x, y, f) = (i % m, i / m % m, i / m / m);
        out.extend(b.iter().map(|c| match f {
            0 => *c,
            1 => c.to_ascii_lowercase(),
            _ => c.to_ascii_uppercase(),
        }));
        for p in [x, y] {
            out[s + letters[p as usize]] ^= 0x20;
        }
    })
}

/// the text with the case of all letters in any one range of it swapped, raised or lowered
pub fn case_ranges(base: &[u8]) -> G {
    let b = base.to_vec();
    let letters: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_alphabetic()).collect();
    let m = letters.len() as u64;
    fun(3 * m * m, move |i, out| {
        let s = out.len();
        out.extend_from_slice(&b);
        let (x, y, f) = (i % m, i / m % m, i / m / m);
        let mut flip = |p: usize| {
            let c = &mut out[s + p];
            *c = match f {
                0 => *c ^ 0x20,
                1 => c.to_ascii_lowercase(),
                _ => c.to_ascii_uppercase(),
            };
        };
        if x <= y {
            letters[x as usize..=y as usize].iter().for_each(|p| flip(*p));
        } else {
            // two letters on their own
            flip(letters[x as usize]);
            flip(letters[y as usize]);
        }
    })
}

impl G {
    pub fn count(&self) -> u64 {
        let big: u128 = match self {
            G::Lit(_) => 1,
            G::Cat(v) => v.iter().map(|g| g.count() as u128).product(),
            G::Alt(v) => v.iter().map(|g| g.count() as u128).sum(),
            G::Seq(g, a, z) => {
                let k = g.count() as u128;
                (*a..=*z).map(|n| k.pow(n as u32)).sum()
            }
            G::Pump(g, n) => g.count() as u128 * n.len() as u128,
            G::Byte(a, z) => (*z as u128) - (*a as u128) + 1,
            G::Fun(n, _) => *n as u128,
        };
        assert!(big < 1 << 50, "space too large");
        big as u64
    }
    pub fn put(&self, mut i: u64, out: &mut Vec<u8>) {
        match self {
            G::Lit(b) => out.extend_from_slice(b),
            G::Cat(v) => {
                // the last component varies fastest
                let mut idx = [0u64; 32];
                assert!(v.len() <= 32);
                for (k, g) in v.iter().enumerate().rev() {
                    let c = g.count();
                    idx[k] = i % c;
                    i /= c;
                }
                for (k, g) in v.iter().enumerate() {
                    g.put(idx[k], out);
                }
            }
            G::Alt(v) => {
                for g in v {
                    let c = g.count();
                    if i < c {
                        return g.put(i, out);
                    }
                    i -= c;
                }
                unreachable!()
            }
            G::Seq(g, a, z) => {
                let k = g.count();
                for n in *a..=*z {
                    let c = k.pow(n as u32);
                    if i < c {
                        let mut div = c;
                        for _ in 0..n {
                            div /= k;
                            g.put(i / div % k, out);
                        }
                        return;
                    }
                    i -= c;
                }
                unreachable!()
            }
            G::Pump(g, n) => {
                let k = g.count();
                for _ in 0..n[(i / k) as usize] {
                    g.put(i % k, out);
                }
            }
            G::Byte(a, _) => out.push(a + i as u8),
            G::Fun(_, f) => f(i, out),
        }
    }
}

/// A generator with its counts worked out once.
pub struct Fast {
    g: FG,
    pub n: u64,
}
enum FG {
    Lit(Vec<u8>),
    Cat(Vec<(FG, u64)>),
    Alt(Vec<(FG, u64)>),
    Seq(Box<FG>, u64, usize, usize),
    Pump(Box<FG>, u64, Vec<usize>),
    Byte(u8),
    Fun(Arc<dyn Fn(u64, &mut Vec<u8>) + Send + Sync>),
}
impl Fast {
    pub fn new(g: &G) -> Fast {
        Fast { n: g.count(), g: fg(g) }
    }
    pub fn put(&self, i: u64, out: &mut Vec<u8>) {
        self.g.put(i, out)
    }
}
fn fg(g: &G) -> FG {
    match g {
        G::Lit(b) => FG::Lit(b.clone()),
        G::Cat(v) => FG::Cat(v.iter().map(|g| (fg(g), g.count())).collect()),
        G::Alt(v) => FG::Alt(v.iter().map(|g| (fg(g), g.count())).collect()),
        G::Seq(g, a, z) => FG::Seq(Box::new(fg(g)), g.count(), *a, *z),
        G::Pump(g, n) => FG::Pump(Box::new(fg(g)), g.count(), n.clone()),
        G::Byte(a, _) => FG::Byte(*a),
        G::Fun(_, f) => FG::Fun(f.clone()),
    }
}
impl FG {
    fn put(&self, mut i: u64, out: &mut Vec<u8>) {
        match self {
            FG::Lit(b) => out.extend_from_slice(b),
            FG::Cat(v) => {
                let mut idx = [0u64; 32];
                for (k, (_, c)) in v.iter().enumerate().rev() {
                    idx[k] = i % c;
                    i /= c;
                }
                for (k, (g, _)) in v.iter().enumerate() {
                    g.put(idx[k], out);
                }
            }
            FG::Alt(v) => {
                for (g, c) in v {
                    if i < *c {
                        return g.put(i, out);
                    }
                    i -= c;
                }
                unreachable!()
            }
            FG::Seq(g, k, a, z) => {
                for n in *a..=*z {
                    let c = k.pow(n as u32);
                    if i < c {
                        let mut div = c;
                        for _ in 0..n {
                            div /= k;
                            g.put(i / div % k, out);
                        }
                        return;
                    }
                    i -= c;
                }
                unreachable!()
            }
            FG::Pump(g, k, n) => {
                for _ in 0..n[(i / k) as usize] {
                    g.put(i % k, out);
                }
            }
            FG::Byte(a) => out.push(a + i as u8),
            FG::Fun(f) => f(i, out),
        }
    }
}
