//! Runs one harness natively with the values found by the solver.
//! usage: replay <harness> <file>; the file has lines `name value` and `name[] default i:v i:v ..`
use harness::prim::ENV;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut e = harness::prim::Env::default();
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let mut t = l.split_whitespace();
        let Some(n) = t.next() else { continue };
        if n.starts_with('#') {
            continue;
        }
        if let Some(n) = n.strip_suffix("[]") {
            let d = t.next().unwrap().parse().unwrap();
            let m = t.map(|x| x.split_once(':').unwrap()).map(|(i, v)| (i.parse().unwrap(), v.parse().unwrap())).collect();
            e.arr.insert(n.to_string(), (d, m));
        } else {
            e.v.insert(n.to_string(), t.next().unwrap().parse().unwrap());
        }
    }
    *ENV.lock().unwrap() = Some(e);
    std::panic::set_hook(Box::new(|i| println!("REPLAY-PANIC {i}")));
    let Some(f) = harness::find(&a[1]) else {
        println!("REPLAY-UNKNOWN harness {}", a[1]);
        std::process::exit(13);
    };
    match std::panic::catch_unwind(f) {
        Ok(()) => println!("REPLAY-OK"),
        Err(_) => {
            println!("REPLAY-FAIL panic");
            std::process::exit(11);
        }
    }
}
