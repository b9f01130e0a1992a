//! Native driver: replays recorded inputs (one line "entry a,b,c" on stdin each) on the real code.
use crate::vsx;
use std::io::BufRead;
pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 && a[1] == "lex" { crate::vl::dump_tokens(&a[2]); return; }
    if a.len() > 1 && a[1] == "parse" {
        // parse <entry> <text>: prints accepted/rejected/panic
        let e: u32 = a[2].parse().unwrap(); let t = a[3].clone();
        let r = std::panic::catch_unwind(|| crate::vp::outcome(e, t));
        println!("{}", match r { Ok(x) => x, Err(e) => format!("panic {}", msg(&e)) }); return;
    }
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap(); let mut it = l.split_whitespace();
        let name = match it.next() { Some(n) => n.to_string(), None => continue };
        let v: Vec<u64> = it.next().map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
        vsx::reset(v);
        let f = match crate::vfam::TABLE.iter().find(|x| x.0 == name) { Some(f) => f.1, None => { println!("noentry"); continue } };
        let r = std::panic::catch_unwind(|| f());
        unsafe {
            let p = match r { Ok(()) => String::new(), Err(e) => msg(&e) };
            println!("{}\t{}\t{}\t{}", p.replace(['\t', '\n'], " "), vsx::FAILED.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(","), vsx::OBS.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), vsx::NOTES.join(","));
        }
    }
}
fn msg(e: &Box<dyn std::any::Any + Send>) -> String { let s = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }; format!("panic: {}", s) }
