use crate::rt;


pub fn main(all: Vec<rt::Prop>) {
    let all: &'static [rt::Prop] = Box::leak(all.into_boxed_slice());
    let a: Vec<String> = std::env::args().collect();
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
    let get = |id: &str| -> &'static rt::Prop {
        match all.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("no such property: {id}");
                std::process::exit(2)
            }
        }
    };
    let tier = |s: &str| {
        if s == "thorough" {
            rt::Tier::Thorough
        } else {
            rt::Tier::Quick
        }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in all {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => {
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let t = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            rt::supervise(get(&a[2]), seed, tier(&t), &root)
        }
        Some("child") => rt::child(
            get(&a[2]),
            a[3].parse().unwrap(),
            tier(&a[4]),
            std::path::Path::new(&a[5]),
            a[6].parse().unwrap(),
        ),
        Some("single") => rt::single(
            get(&a[2]),
            a[3].parse().unwrap(),
            tier(&a[4]),
            a[5].parse().unwrap(),
        ),
        _ => {
            eprintln!("usage: mon list | run ID | single ID SEED TIER CASE");
            2
        }
    };
    std::process::exit(code);
}
