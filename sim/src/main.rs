mod choice;
mod damage;
mod engine;
mod gen;
mod io;
mod s_env;
mod s_io;
mod s_layout;
mod s_model;
mod s_dxb;
mod s_flags;
mod s_more;
mod s_norm;
mod s_round;
mod sched;
mod seam;
mod value;
mod workload;
use engine::{Prop, Source};
use std::path::PathBuf;

#[global_allocator]
static A: seam::SimAlloc = seam::SimAlloc;

const REAL: &str = "the dxf crate built from /repo's working tree with its dependencies, and Rust's std (BufReader, BufWriter, File, HashMap)";
const STUB: &str = "file system under /dxfsim/, stream readers and writers, wall clock, time zone, random number source, lock waiting and thread scheduling";

macro_rules! props {
    ($($id:literal $run:expr, $q:expr, $t:expr, $rule:expr;)*) => {
        pub fn props() -> Vec<Prop> { vec![$(Prop { id: $id, run: $run, quick: $q, thorough: $t, level: "exploration", rule: $rule, real: REAL, stub: STUB }),*] }
    };
}
props! {
    "C01" s_io::c01, 40_000, 2_000_000, "a run builds a random drawing, saves it undisturbed and again through a writer or file that takes it in pieces; non-trivial: at least one short or interrupted write happened";
    "C02" s_io::c02, 40_000, 2_000_000, "a run saves a random drawing to writers that fail at chosen points, then retries; non-trivial: a hard error was delivered during a save";
    "C03" s_io::c03, 40_000, 2_000_000, "a run saves a random drawing to a simulated disk that fills up or fails at chosen operations, then retries; non-trivial: a disk operation failed during a save";
    "C04" s_io::c04, 40_000, 2_000_000, "a run loads the same bytes undisturbed and in pieces; non-trivial: at least one short or interrupted read happened";
    "C05" s_io::c05, 40_000, 2_000_000, "a run loads bytes from readers and files that fail at chosen points; non-trivial: a hard error was delivered during a load";
    "C06" s_io::c06, 40_000, 2_000_000, "a run cuts a saved file short, or crashes in the middle of a file save, and loads what is left; non-trivial: the file was cut or the crash fell inside the save";
    "C07" s_io::c07, 100_000, 4_000_000, "a run damages a saved file, loads it, and saves and reloads the result; non-trivial: every run (at least one piece of damage)";
    "C08" s_env::c08, 40_000, 2_000_000, "a run applies the same edits and saves in three processes that differ in hash keys, random numbers and clock; non-trivial: every run that reaches the second process";
    "C09" s_env::c09, 60_000, 2_000_000, "a run saves dates in one time zone at one time and loads them in the same or another zone at another time; non-trivial: every run that saved";
    "C10" s_round::c10, 60_000, 2_000_000, "a run builds a drawing of a few kinds of items, stores it in a file on a disk that fails and is retried, restarts, loads it, edits and converts it, and goes round again; every field is compared; non-trivial: a save failed or the process restarted";
    "C11" s_model::c11, 40_000, 2_000_000, "a run saves a random drawing and loads and saves it again three to five times, some of them in a new process at another time; non-trivial: at least one restart";
    "C12" s_model::c12, 40_000, 2_000_000, "a run is a history of additions, removals, normalizations, saves and loads, with the handle invariant and look-ups checked after every step; non-trivial: at least one restart";
    "C15" s_model::c15, 40_000, 2_000_000, "a run is a history of additions, normalizations, saves and loads, with every reference by name checked after every step; non-trivial: at least one restart";
    "C13" s_env::c13, 10_000, 400_000, "a run carries out one to four loads, saves and edits alone and then at the same time, preempted at allocations and I/O, and some of them from inside the reader or writer of another; non-trivial: at least one switch or nested call";
    "C14" s_env::c14, 10_000, 400_000, "a run loads and saves a file of a few copies of an item and one of four to sixteen times as many, and counts memory, allocations and reads; non-trivial: both files were saved and loaded";
    "C16" s_env::c16, 60_000, 3_000_000, "a run damages one line of a saved text file so that it cannot be read for what it should be, and loads the file; non-trivial: every run that has such a line";
    "C17" s_more::c17, 60_000, 3_000_000, "a run stores entities in DXB files (and other formats) on a disk that fails and is retried, restarts and loads them, up to three times over; non-trivial: every run (each restarts)";
    "C18" s_more::c18, 60_000, 3_000_000, "a run loads a file whose text is in one of eight code pages from memory, from a stream in pieces or from a disk; non-trivial: every run that has such a file";
    "C19" s_layout::c19, 60_000, 2_000_000, "a run saves a random drawing as text, lays the file out as another program might, and loads it in pieces or from a disk; non-trivial: every run that saved";
    "C20" s_norm::c20, 30_000, 1_500_000, "a run is a history of edits, additions, saves and loads with a normalization after each, compared item by item with a reference model of what is valid; non-trivial: at least one normalization had something to put right";
    "C21" s_dxb::c21, 200_000, 6_000_000, "a run writes a DXB file as another program might, from a small reference model of the format, and loads it from memory, in pieces or from a disk; non-trivial: every run";
    "C22" s_flags::c22, 100_000, 3_000_000, "a run sets flags of two items of a kind in any order, with saves and loads in between, and compares all of them with a model after each step; non-trivial: every run";
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all = props();
    let find = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id));
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    std::env::set_var("TZ", "UTC0");
    engine::install_panic_hook();
    let num = |s: &str| s.parse::<u64>().unwrap_or(0);
    let code = match arg(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if arg(3) == "thorough" || arg(3) == "quick" { arg(3).to_string() } else { tier };
            let workers = std::env::var("DXFSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            let runs = std::env::var("DXFSIM_RUNS").ok().and_then(|s| s.parse().ok());
            engine::check_main(find(arg(2)), seed, &tier, workers, runs)
        }
        "worker" => engine::worker(find(arg(2)), num(arg(3)), num(arg(4)), num(arg(5)), num(arg(6)), &PathBuf::from(arg(7)), arg(8).parse().unwrap_or(60.0)),
        "exec" => {
            let src = match arg(5) {
                "seed" => Source::Seed(num(arg(6))),
                _ => Source::Choices(serde_json::from_slice(&std::fs::read(arg(6)).unwrap()).unwrap()),
            };
            engine::exec_main(find(arg(2)), &PathBuf::from(arg(3)), arg(4).parse().unwrap_or(60), src)
        }
        "sweep" => {
            let p: &'static Prop = Box::leak(Box::new(props())).iter().find(|p| p.id == arg(2)).unwrap();
            engine::sweep_main(p, arg(4).parse().unwrap_or(1), num(arg(3)), 8)
        }
        "show" => engine::show_main(find(arg(2)), arg(4).parse().unwrap_or(1), num(arg(3))),
        "replay" => engine::replay_main(&all, &PathBuf::from(arg(2))),
        "survey" => {
            let fl: &[gen::Flavor] = match arg(4) {
                "text" => &[gen::Flavor::Text],
                "wild" => &[gen::Flavor::Wild],
                _ => &[gen::Flavor::Plain],
            };
            let s = s_round::survey_main(num(arg(2)), if arg(3) == "all" { "" } else { arg(3) }, fl, arg(5).parse().unwrap_or(11), 0, 1, 0);
            s_round::print_survey(&s);
            0
        }
        "golden" => {
            let fl = [gen::Flavor::Plain, gen::Flavor::Text, gen::Flavor::Wild];
            let s = s_round::survey_main(num(arg(2)), "", &fl, 99, num(arg(3)) as usize, num(arg(4)) as usize, num(arg(6)));
            std::fs::write(arg(5), s_round::write_golden(&s, (num(arg(2)) / 50).max(20) as u32)).unwrap();
            0
        }
        "list" => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dxfsim check <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
