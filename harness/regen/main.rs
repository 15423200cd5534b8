mod isa { pub use m68000::isa::Isa; }
#[path = "../../build/regen/decoder.rs"]
mod decoder;

fn main() {
    for h in 0..256 {
        let l: Vec<String> = (0..256).map(|l| format!("\"{:?}\"", decoder::DECODER[h * 256 + l])).collect();
        println!("{{\"i\":\"regen-{h}\",\"rows\":[[\"gen\",{h},[{}]]]}}", l.join(","));
    }
}
