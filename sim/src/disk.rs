//! Simulated storage: a file is a sequence of blocks; a crash decides which blocks of a rewrite
//! reached the medium, and the medium damages bytes.
use crate::core::Ctx;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    /// The crash came before this block of the rewrite (counted in write order) reached the disk:
    /// it keeps its old content.
    Lost(usize),
    /// Only the first n bytes of this block were written.
    Torn(usize, usize),
    /// The file ends here (a short write, or metadata not updated).
    Short(usize),
    /// This block was written in the place of that one (misdirected write).
    Misdirected(usize, usize),
    /// A bit of a stored byte flipped.
    Flip(usize, u8),
    /// A stored byte reads back as another value.
    Garbage(usize, u8),
    /// A block reads back as zeroes.
    Zeroed(usize),
}

/// What a reader finds after `new` was written over `old` and the listed faults happened.
pub fn store(old: &[u8], new: &[u8], block: usize, damage: &[Damage], ctx: &mut Ctx) -> Vec<u8> {
    let block = block.clamp(1, 4096);
    let mut out = new.to_vec();
    let get = |src: &[u8], i: usize| -> Vec<u8> { src.iter().skip(i * block).take(block).copied().collect() };
    for d in damage {
        let before = out.clone();
        let kind = match d {
            Damage::Lost(b) => {
                let o = get(old, *b);
                for (k, x) in o.iter().enumerate() {
                    let at = b * block + k;
                    if at < out.len() {
                        out[at] = *x;
                    }
                }
                "lost-write"
            }
            Damage::Torn(b, n) => {
                let o = get(old, *b);
                for (k, x) in o.iter().enumerate().skip(*n) {
                    let at = b * block + k;
                    if at < out.len() {
                        out[at] = *x;
                    }
                }
                "torn-write"
            }
            Damage::Short(n) => {
                out.truncate(*n);
                "short-write"
            }
            Damage::Misdirected(from, to) => {
                let src = get(new, *from);
                for (k, x) in src.iter().enumerate() {
                    let at = to * block + k;
                    if at < out.len() {
                        out[at] = *x;
                    }
                }
                "misdirected-write"
            }
            Damage::Flip(at, bit) => {
                if let Some(x) = out.get_mut(*at) {
                    *x ^= 1 << (bit % 8);
                }
                "flipped-bit"
            }
            Damage::Garbage(at, v) => {
                if let Some(x) = out.get_mut(*at) {
                    *x = *v;
                }
                "garbage-byte"
            }
            Damage::Zeroed(b) => {
                for k in 0..block {
                    if let Some(x) = out.get_mut(b * block + k) {
                        *x = 0;
                    }
                }
                "zeroed-block"
            }
        };
        if out != before {
            ctx.fault(kind);
        }
    }
    out
}

/// Draws damage for a file of this size.
pub fn draw(rng: &mut crate::rng::Rng, len: usize, block: usize, interesting: &[u8]) -> Vec<Damage> {
    let blocks = len.div_ceil(block.max(1)).max(1);
    let n = rng.weighted(&[3, 8, 3, 1]);
    let mut out = vec![];
    for _ in 0..n {
        out.push(match rng.weighted(&[3, 3, 4, 1, 3, 6, 1]) {
            0 => Damage::Lost(rng.below(blocks)),
            1 => Damage::Torn(rng.below(blocks), rng.below(block + 1)),
            2 => Damage::Short(rng.below(len + 1)),
            3 => Damage::Misdirected(rng.below(blocks), rng.below(blocks)),
            4 => Damage::Flip(rng.below(len.max(1)), rng.below(8) as u8),
            5 => Damage::Garbage(rng.below(len.max(1)), *rng.pick(interesting)),
            _ => Damage::Zeroed(rng.below(blocks)),
        });
    }
    out
}
