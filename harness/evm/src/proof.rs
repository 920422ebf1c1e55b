//! The proof structure of the Ethereum verifier, as the Rust side exports it.
use crate::{interp::Tree, json::J, word::W};

#[derive(Clone, PartialEq, Debug)]
pub struct SolProof {
    pub public_inputs: Vec<u8>,
    pub trace_values: Vec<W>,
    pub trace_commitment: W,
    pub constraint_values: Vec<W>,
    pub constraint_commitment: W,
    pub trace_oods_values: Vec<W>,
    pub constraint_oods_values: Vec<W>,
    pub pow_nonce: [u8; 8],
    pub trace_decommitment: Vec<W>,
    pub constraint_decommitment: Vec<W>,
    pub fri_values: Vec<Vec<W>>,
    pub fri_commitments: Vec<W>,
    pub fri_decommitments: Vec<Vec<W>>,
    pub last_layer_coefficients: Vec<W>,
}
fn word(j: &J) -> Result<W, String> {
    let b = j.hex().ok_or("not hex")?;
    if b.len() != 32 {
        return Err(format!("word of {} bytes", b.len()));
    }
    Ok(W::from_be(&b))
}
fn words(j: &J) -> Result<Vec<W>, String> {
    j.arr().ok_or("not an array")?.iter().map(word).collect()
}
fn nested(j: &J) -> Result<Vec<Vec<W>>, String> {
    j.arr().ok_or("not an array")?.iter().map(words).collect()
}
impl SolProof {
    pub fn from_json(j: &J, public_inputs: Vec<u8>) -> Result<SolProof, String> {
        let g = |k: &str| j.get(k).ok_or(format!("no field {}", k));
        let n = g("pow_nonce")?.hex().ok_or("nonce")?;
        if n.len() != 8 {
            return Err("nonce length".into());
        }
        let mut nonce = [0u8; 8];
        nonce.copy_from_slice(&n);
        Ok(SolProof {
            public_inputs,
            trace_values: words(g("trace_values")?)?,
            trace_commitment: word(g("trace_commitment")?)?,
            constraint_values: words(g("constraint_values")?)?,
            constraint_commitment: word(g("constraint_commitment")?)?,
            trace_oods_values: words(g("trace_oods_values")?)?,
            constraint_oods_values: words(g("constraint_oods_values")?)?,
            pow_nonce: nonce,
            trace_decommitment: words(g("trace_decommitment")?)?,
            constraint_decommitment: words(g("constraint_decommitment")?)?,
            fri_values: nested(g("fri_values")?)?,
            fri_commitments: words(g("fri_commitments")?)?,
            fri_decommitments: nested(g("fri_decommitments")?)?,
            last_layer_coefficients: words(g("last_layer_coefficients")?)?,
        })
    }
    pub fn tree(&self) -> Tree {
        let nest = |v: &Vec<Vec<W>>| Tree::Seq(v.iter().map(|x| Tree::words(x)).collect());
        let mut nonce = [0u8; 32];
        nonce[..8].copy_from_slice(&self.pow_nonce);
        Tree::Seq(vec![
            Tree::Bytes(self.public_inputs.clone()),
            Tree::words(&self.trace_values),
            Tree::Word(self.trace_commitment),
            Tree::words(&self.constraint_values),
            Tree::Word(self.constraint_commitment),
            Tree::words(&self.trace_oods_values),
            Tree::words(&self.constraint_oods_values),
            Tree::Word(W::from_be(&nonce)),
            Tree::words(&self.trace_decommitment),
            Tree::words(&self.constraint_decommitment),
            nest(&self.fri_values),
            Tree::words(&self.fri_commitments),
            nest(&self.fri_decommitments),
            Tree::words(&self.last_layer_coefficients),
        ])
    }
}
