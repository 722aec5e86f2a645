//! A toy signature scheme with jf-signature's interface: enough to run the demonstrations.
use rand::{CryptoRng, RngCore};
pub trait SignatureScheme: Clone + Send + Sync + 'static {
    type SigningKey: Clone + Send + Sync;
    type VerificationKey: Clone + Send + Sync + Eq;
    type PublicParameter;
    type Signature: Clone + ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize;
    type MessageUnit;
    fn key_gen<R: CryptoRng + RngCore>(
        pp: &Self::PublicParameter,
        prng: &mut R,
    ) -> Result<(Self::SigningKey, Self::VerificationKey), SignatureError>;
    fn sign<R: CryptoRng + RngCore, M: AsRef<[Self::MessageUnit]>>(
        pp: &Self::PublicParameter,
        sk: &Self::SigningKey,
        msg: M,
        prng: &mut R,
    ) -> Result<Self::Signature, SignatureError>;
    fn verify<M: AsRef<[Self::MessageUnit]>>(
        pp: &Self::PublicParameter,
        vk: &Self::VerificationKey,
        msg: M,
        sig: &Self::Signature,
    ) -> Result<(), SignatureError>;
}

#[derive(Debug)]
pub struct SignatureError;
impl std::fmt::Display for SignatureError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("signature error")
    }
}
impl std::error::Error for SignatureError {}

fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (lane, chunk) in out.chunks_mut(8).enumerate() {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (lane as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for p in parts {
            for b in (p.len() as u64).to_le_bytes().iter().chain(p.iter()) {
                h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
                h ^= h >> 29;
            }
        }
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub mod bls_over_bn254 {
    use super::*;
    use ark_serialize::{
        CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid,
        Validate, Write,
    };

    macro_rules! bytes32 {
        ($n:ident) => {
            #[derive(Clone, PartialEq, Eq, Debug, Hash)]
            pub struct $n(pub [u8; 32]);
            impl CanonicalSerialize for $n {
                fn serialize_with_mode<W: Write>(
                    &self,
                    mut w: W,
                    _c: Compress,
                ) -> Result<(), SerializationError> {
                    w.write_all(&self.0)?;
                    Ok(())
                }
                fn serialized_size(&self, _c: Compress) -> usize {
                    32
                }
            }
            impl Valid for $n {
                fn check(&self) -> Result<(), SerializationError> {
                    Ok(())
                }
            }
            impl CanonicalDeserialize for $n {
                fn deserialize_with_mode<R: Read>(
                    mut r: R,
                    _c: Compress,
                    _v: Validate,
                ) -> Result<Self, SerializationError> {
                    let mut b = [0u8; 32];
                    r.read_exact(&mut b)?;
                    Ok(Self(b))
                }
            }
        };
    }
    bytes32!(VerKey);
    bytes32!(SignKey);
    bytes32!(Signature);

    #[derive(Clone)]
    pub struct BLSOverBN254CurveSignatureScheme;
    impl SignatureScheme for BLSOverBN254CurveSignatureScheme {
        type SigningKey = SignKey;
        type VerificationKey = VerKey;
        type PublicParameter = ();
        type Signature = Signature;
        type MessageUnit = u8;
        fn key_gen<R: CryptoRng + RngCore>(
            _: &(),
            rng: &mut R,
        ) -> Result<(SignKey, VerKey), SignatureError> {
            let mut b = [0u8; 32];
            rng.fill_bytes(&mut b);
            Ok((SignKey(b), VerKey(hash(&[b"key", &b]))))
        }
        fn sign<R: CryptoRng + RngCore, M: AsRef<[u8]>>(
            _: &(),
            sk: &SignKey,
            msg: M,
            _: &mut R,
        ) -> Result<Signature, SignatureError> {
            Ok(Signature(hash(&[&hash(&[b"key", &sk.0]), msg.as_ref()])))
        }
        fn verify<M: AsRef<[u8]>>(
            _: &(),
            vk: &VerKey,
            msg: M,
            sig: &Signature,
        ) -> Result<(), SignatureError> {
            if sig.0 == hash(&[&vk.0, msg.as_ref()]) {
                Ok(())
            } else {
                Err(SignatureError)
            }
        }
    }
}
