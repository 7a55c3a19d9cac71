mod bgen;
mod boracle;
mod bscn;
mod cgen;
mod coracle;
mod cscn;
mod escn;
mod explore;
mod hist;
mod interpose;
mod mq;
mod scn;
mod sscn;
mod tls;
mod tscn;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let props = |s: &str| s.split(',').map(|x| x.to_string()).collect::<Vec<_>>();
    let code = match arg(1) {
        "check" => explore::check(arg(2)),
        "replay" => explore::replay(arg(2)),
        "selftest" => explore::selftest(&props(arg(2)), arg(3).parse().unwrap_or(20)),
        "sweep" => {
            explore::sweep(&props(arg(2)), arg(3).parse().unwrap_or(200), a.get(4).map(|s| s.as_str()));
            0
        }
        "show" => {
            explore::show_case(arg(2), arg(3).parse().unwrap_or(0), a.get(4).map(|s| s.as_str()));
            0
        }
        _ => {
            eprintln!("usage: vsim check ID | replay FILE | selftest IDS N | sweep IDS N [PREFIX] | show ID RUN [ID/CLASS]");
            2
        }
    };
    // a hung run leaves a thread behind
    std::process::exit(code);
}
