//! Runs an unoptimised build of the parser on one long stream, on a stack of the usual size for threads.
//! Arguments: unit bytes in hex, length, chunk length, store (`vec` or a capacity). Prints the number of results.
use ublox::{FixedLinearBuffer, Parser, UnderlyingBuffer};

fn feed<T: UnderlyingBuffer>(p: &mut Parser<T>, data: &[u8], chunk: usize) -> usize {
    let mut n = 0;
    for c in data.chunks(chunk) {
        let mut it = p.consume(c);
        while let Some(r) = it.next() {
            std::hint::black_box(&r);
            n += 1;
        }
    }
    n
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let unit: Vec<u8> = (0..a[0].len() / 2).map(|i| u8::from_str_radix(&a[0][2 * i..2 * i + 2], 16).unwrap()).collect();
    let (len, chunk): (usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let data: Vec<u8> = unit.iter().copied().cycle().take(len).collect();
    let store = a[3].clone();
    let n = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || match store.as_str() {
            "vec" => feed(&mut Parser::<Vec<u8>>::default(), &data, chunk),
            c => {
                let mut mem = vec![0u8; c.parse().unwrap()];
                feed(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &data, chunk)
            },
        })
        .unwrap()
        .join();
    match n {
        Ok(n) => println!("{n}"),
        Err(_) => std::process::exit(3),
    }
}
