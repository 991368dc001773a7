//! `vh dump DIR N SEED KIND`: writes generated inputs as files (a development
//! aid; no check uses it). KIND: doc, long (with one long list), wild (all encoding freedoms), any
//! (damaged, crafted and random input).
use crate::r#gen::*;
use crate::run::*;
use crate::tape::*;
use crate::wire::*;
use std::path::Path;

pub fn dump(a: &[String]) -> i32 {
    let dir = Path::new(&a[1]);
    let n: u64 = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    std::fs::create_dir_all(dir).unwrap();
    for i in 0..n {
        let big = i % 4 == 0;
        let lens: &[usize] = if a[4] == "book" { &[300, 40, 900] } else if big { &[3000, 2500, 40] } else { &[500, 600, 40] };
        let t = tapes_for(seed, "dump", &a[4], i, lens);
        let mut cx = Cx::new(&t, dir);
        if a[4] == "book" {
            super::fs::dump_book(&mut cx, &dir.join(format!("{i:05}")));
            continue;
        }
        let (bytes, toc) = if a[4] == "any" {
            let d = crate::damage::any(&mut cx);
            (d.bytes, d.toc)
        } else {
            let mut c = super::content::base_cfg(&mut cx.x);
            c.budget = cx.x.pick(&[3, 6, 12]);
            if big {
                c.budget = cx.x.pick(&[20, 40]);
            }
            c.w_page = cx.x.pick(&[[8, 1, 1, 1, 1], [4, 4, 4, 4, 1], [10, 0, 0, 0, 0]]);
            c.w_elem = cx.x.pick(&[[8, 1, 1, 1, 1, 1], [4, 6, 1, 1, 1, 1], [10, 0, 0, 0, 0, 0]]);
            c.math = cx.x.pick(&[1, 8]);
            c.embedded = cx.x.pick(&[1, 8]);
            c.pages = cx.x.pick(&[1, 2, 4]);
            c.series = cx.x.pick(&[1, 3]);
            c.stretch = if a[4] == "long" { 256 } else { 0 };
            let doc = gen_section(&mut cx.m, &c, &mut []);
            let wc = if a[4] == "wild" { WireCfg::ALL } else { WireCfg::MILD };
            (encode(&doc.file, &mut cx.w, wc).bytes, false)
        };
        let name = format!("{i:05}.{}", if toc { "onetoc2" } else { "one" });
        std::fs::write(dir.join(name), bytes).unwrap();
    }
    0
}
/// `vh toc FILE NAME...`: writes a table of contents listing these names.
pub fn toc(a: &[String]) -> i32 {
    let kid = |(i, n): (usize, &String)| TocNode { name: Some(n.clone()), order: Some(i as u32 + 1), color: None, kids: vec![] };
    let root = TocNode { name: None, order: None, color: None, kids: a[2..].iter().enumerate().map(kid).collect() };
    let f = toc_file(&mut Tape::new(vec![9; 60]), &root, &GenCfg::base());
    std::fs::write(&a[1], encode(&f, &mut Tape::new(vec![]), WireCfg::PLAIN).bytes).unwrap();
    0
}
