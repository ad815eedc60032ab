#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
extern crate ff;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
mod enc;
mod forge;
mod m127;
mod pos;
mod pts;
mod rec;
#[cfg(feature = "c20")]
mod sol;
mod tiny;

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ctx = enc::Ctx {
        dir: a[2].clone(),
        seed: a[3].parse().unwrap(),
        thorough: a[4] == "thorough",
    };
    // panics of the code under test are observations, not noise
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST.lock() {
            *l = i.to_string();
        }
    }));
    let f: fn(&enc::Ctx) = match a[1].as_str() {
        #[cfg(feature = "c01")]
        "C01" => c01::run,
        #[cfg(feature = "c02")]
        "C02" => c02::run,
        #[cfg(feature = "c03")]
        "C03" => c03::run,
        #[cfg(feature = "c04")]
        "C04" => c04::run,
        #[cfg(feature = "c05")]
        "C05" => c05::run,
        #[cfg(feature = "c06")]
        "C06" => c06::run,
        #[cfg(feature = "c07")]
        "C07" => c07::run,
        #[cfg(feature = "c08")]
        "C08" => c08::run,
        #[cfg(feature = "c09")]
        "C09" => c09::run,
        #[cfg(feature = "c10")]
        "C10" => c10::run,
        #[cfg(feature = "c11")]
        "C11" => c11::run,
        #[cfg(feature = "c12")]
        "C12" => c12::run,
        #[cfg(feature = "c13")]
        "C13" => c13::run,
        #[cfg(feature = "c14")]
        "C14" => c14::run,
        #[cfg(feature = "c15")]
        "C15" => c15::run,
        #[cfg(feature = "c16")]
        "C16" => c16::run,
        #[cfg(feature = "c17")]
        "C17" => c17::run,
        #[cfg(feature = "c18")]
        "C18" => c18::run,
        #[cfg(feature = "c19")]
        "C19" => c19::run,
        #[cfg(feature = "c20")]
        "C20" => c20::run,
        #[cfg(feature = "c22")]
        "C22" => c22::run,
        #[cfg(feature = "c23")]
        "C23" => c23::run,
        #[cfg(feature = "c23")]
        "C23-child" => c23::child,
        s => {
            eprintln!("unknown scenario {}", s);
            std::process::exit(2)
        }
    };
    let t = std::thread::Builder::new()
        .stack_size(1 << 29)
        .spawn(move || f(&ctx))
        .unwrap();
    if t.join().is_err() {
        let l = LAST.lock().map(|l| l.clone()).unwrap_or_default();
        eprintln!("harness: unexpected panic in scenario {}\n{}", a[1], l);
        std::process::exit(3);
    }
}
