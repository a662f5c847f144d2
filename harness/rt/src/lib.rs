pub mod gens;
pub mod macros;
pub mod numeric;
pub mod reference;
pub mod temporal;
pub mod xmlio;

/// The check named on the command line, or the one of the replay file.
pub fn check() -> (String, vp_common::Check) {
    let args: Vec<String> = std::env::args().collect();
    let (id, sub, tape) = if args.len() == 3 && args[1] == "replay" {
        let (p, s, t) = vp_common::read_replay(&args[2]);
        (p, Some(s), t)
    } else {
        (args[1].clone(), None, vec![])
    };
    let mut c = vp_common::Check::new(&id);
    if let Some(s) = sub {
        c = c.replay(&s, tape);
    }
    (id, c)
}
