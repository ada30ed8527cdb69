#![allow(dead_code)]
mod alloc; mod content; mod cpx; mod ctx; mod det; mod edit; mod enc; mod eqs; mod layout; mod limits; mod robust; mod gen; mod model; mod pipe; mod progs; mod rcls; mod rng; mod text; mod textc;
use std::collections::BTreeMap;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Read and write each file of a list (lines "from<TAB>to").
fn rewrite(args: &BTreeMap<String, String>) {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::fs::read_to_string(&args["list"]).expect("list").lines() {
        let (a, b) = l.split_once('\t').expect("two paths");
        let f = std::fs::read(a).expect("class file");
        let go = || -> Result<Vec<u8>, String> { let mut w = pipe::write(&pipe::read(&f)?)?; if args["mode"] == "twice" { w = pipe::write(&pipe::read(&w)?)? } Ok(w) };
        match ctx::guard(go).unwrap_or_else(Err) { Ok(w) => std::fs::write(b, w).expect("output"), Err(e) => println!("FAILED {a}: {e}") }
    }
}
fn main() {
    let mut args = BTreeMap::new();
    let mut it = std::env::args().skip(1);
    args.insert("id".to_string(), it.next().unwrap_or_default());
    while let Some(k) = it.next() { args.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default()); }
    if let Some(d) = args.get("dict") { rng::set_dict(d) }
    if args["id"] == "miri-probe" { return }
    let stack = args.get("stack").and_then(|s| s.parse().ok()).unwrap_or(8usize << 20);
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
        if args["id"] == "rewrite" { return rewrite(&args) }
        if args["id"] == "emit" { return progs::emit(&args) }
        let mut c = ctx::Ctx::new(&args);
        let id = c.id.clone();
        match id.as_str() {
            "C03" => content::c03(&mut c),
            "C04" => content::c04(&mut c),
            "C13" => content::c13(&mut c),
            "C14" => content::c14(&mut c),
            "C15" => content::c15(&mut c),
            "C18" => content::c18(&mut c),
            "C19" => content::c19(&mut c),
            "C05" => layout::c05(&mut c),
            "C06" => layout::c06(&mut c),
            "C07" => limits::c07(&mut c),
            "C08" => textc::c08(&mut c),
            "C09" => textc::c09(&mut c),
            "C10" => textc::c10(&mut c),
            "C11" => textc::c11(&mut c),
            "C12" => cpx::c12(&mut c),
            "C20" => cpx::c20(&mut c),
            "C22" => cpx::c22(&mut c),
            "C23" => cpx::c23(&mut c),
            "C01" => robust::c01(&mut c),
            "C02" => robust::c02(&mut c),
            "C16" => robust::c16(&mut c),
            "C17" => det::c17(&mut c),
            "C25" => eqs::c25(&mut c),
            "C24" => edit::c24(&mut c),
            _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
        }
        c.save_digests();
        let j = c.json();
        match args.get("out") { Some(p) => std::fs::write(p, j).unwrap(), None => { for (s, m) in &c.viol { println!("{s}: {m}") } c.distinct.clear(); c.viol.clear(); println!("{}", c.json()) } }
    }).unwrap();
    if h.join().is_err() { std::process::exit(3) }
}
