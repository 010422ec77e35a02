pub mod hashing {
    /// Collision free on inputs of up to 31 bytes; longer ones are out of bounds.
    pub fn blake2_256(data: &[u8]) -> [u8; 32] {
        if data.len() > 31 {
            crate::out_of_bounds("hash of more than 31 bytes");
        }
        let mut out = [0u8; 32];
        out[0] = data.len() as u8;
        out[1..=data.len()].copy_from_slice(data);
        out
    }
    pub fn blake2_128(data: &[u8]) -> [u8; 16] {
        if data.len() > 15 {
            crate::out_of_bounds("hash of more than 15 bytes");
        }
        let mut out = [0u8; 16];
        out[0] = data.len() as u8;
        out[1..=data.len()].copy_from_slice(data);
        out
    }
}
