use vp_rt::*;

fn main() {
    let (id, mut c) = check();
    match id.as_str() {
        "T01" => temporal::t01(&mut c),
        "T02" => temporal::t02(&mut c),
        "T03" => temporal::t03(&mut c),
        "T04" => temporal::t04(&mut c),
        "T05" => numeric::t05(&mut c),
        "T06" => numeric::t06(&mut c),
        "T07" => numeric::t07(&mut c),
        "T08" => numeric::t08(&mut c),
        "T09" => xmlio::t09(&mut c),
        "M01" => macros::m01(&mut c),
        "M02" => macros::m02(&mut c),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(3)
        }
    }
    c.finish()
}
