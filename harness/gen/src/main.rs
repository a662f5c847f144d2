use vp_gen::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "w03-child" {
        return wsdl::child(&args[2]);
    }
    let (id, mut c) = check();
    match id.as_str() {
        "G01" => structural::run(&mut c, "G01"),
        "G02" => structural::run(&mut c, "G02"),
        "G03" => structural::run(&mut c, "G03"),
        "G04" => structural::run(&mut c, "G04"),
        "G05" => structural::run(&mut c, "G05"),
        "G06" => structural::run(&mut c, "G06"),
        "G07" => structural::run(&mut c, "G07"),
        "G08" => structural::run(&mut c, "G08"),
        "G09" => structural::run(&mut c, "G09"),
        "G10" => structural::run(&mut c, "G10"),
        "G16" => structural::run(&mut c, "G16"),
        "G11" => meta::run(&mut c, "G11"),
        "G12" => meta::run(&mut c, "G12"),
        "G13" => meta::run(&mut c, "G13"),
        "G14" => valid::run(&mut c),
        "G15" => docs::run(&mut c),
        "C01" => cli::run(&mut c, "C01"),
        "C02" => cli::run(&mut c, "C02"),
        "W01" => wsdl::run(&mut c, "W01"),
        "W02" => wsdl::run(&mut c, "W02"),
        "W03" => wsdl::run(&mut c, "W03"),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(3)
        }
    }
    c.finish()
}
