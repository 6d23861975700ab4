//! Numbers as the specification's BigNat: little-endian base-10000 digits.
pub fn big(mut n: u128) -> String {
    let mut d = vec![];
    while n > 0 {
        d.push((n % 10000).to_string());
        n /= 10000;
    }
    format!("[{}]", d.join(","))
}
pub fn bigs(v: &[usize]) -> String {
    let s: Vec<String> = v.iter().map(|x| big(*x as u128)).collect();
    format!("[{}]", s.join(","))
}
