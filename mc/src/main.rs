mod engine;
mod model;
mod osm;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "sched")]
mod c12;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;
#[cfg(feature = "c20")]
mod cli;
mod fmi;

use engine::{Ctx, Tier};

#[global_allocator]
static GLOBAL: engine::Capped = engine::Capped;

fn main() {
    #[cfg(feature = "c21")]
    if let Some(rc) = c21::stand_in() {
        std::process::exit(rc);
    }
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).expect("property").clone();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--case" => {
                i += 1;
                let k = args[i].rfind(':').expect("family:index");
                only = Some((args[i][..k].to_string(), args[i][k + 1..].parse().unwrap()));
            }
            other => panic!("unknown argument {}", other),
        }
        i += 1;
    }
    engine::install_panic_hook();
    let mut ctx = Ctx::new(&prop, tier, only);
    match prop.as_str() {
        #[cfg(feature = "c01")]
        "C01" => c01::run(&mut ctx),
        #[cfg(feature = "c02")]
        "C02" => c02::run(&mut ctx),
        #[cfg(feature = "c03")]
        "C03" => c03::run(&mut ctx),
        #[cfg(feature = "c04")]
        "C04" => c04::run(&mut ctx),
        #[cfg(feature = "c05")]
        "C05" => c05::run(&mut ctx),
        #[cfg(feature = "c06")]
        "C06" => c06::run(&mut ctx),
        #[cfg(feature = "c07")]
        "C07" => c07::run(&mut ctx),
        #[cfg(feature = "c08")]
        "C08" => c08::run(&mut ctx),
        #[cfg(feature = "c09")]
        "C09" => c09::run(&mut ctx),
        #[cfg(feature = "c11")]
        "C11" => c11::run(&mut ctx),
        #[cfg(feature = "sched")]
        "C12" => c12::run(&mut ctx),
        #[cfg(feature = "c10")]
        "C10" => c10::run(&mut ctx),
        #[cfg(feature = "c13")]
        "C13" => c13::run(&mut ctx),
        #[cfg(feature = "c14")]
        "C14" => c14::run(&mut ctx),
        #[cfg(feature = "c15")]
        "C15" => c15::run(&mut ctx),
        #[cfg(feature = "c16")]
        "C16" => c16::run(&mut ctx),
        #[cfg(feature = "c17")]
        "C17" => c17::run(&mut ctx),
        #[cfg(feature = "c18")]
        "C18" => c18::run(&mut ctx),
        #[cfg(feature = "c19")]
        "C19" => c19::run(&mut ctx),
        #[cfg(feature = "c20")]
        "C20" => c20::run(&mut ctx),
        #[cfg(feature = "c21")]
        "C21" => c21::run(&mut ctx),
        #[cfg(feature = "c23")]
        "C23" => c23::run(&mut ctx),
        #[cfg(feature = "c24")]
        "C24" => c24::run(&mut ctx),
        #[cfg(feature = "c25")]
        "C25" => c25::run(&mut ctx),
        other => {
            eprintln!("no check for {}", other);
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
