//! Type-only stand-in for jf-signature (never executed): enough for /repo's uses to type-check.
pub trait SignatureScheme: Clone + Send + Sync + 'static {
    type SigningKey: Clone + Send + Sync;
    type VerificationKey: Clone + Send + Sync + Eq;
    type PublicParameter;
    type Signature: Clone + ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize;
    type MessageUnit;
    fn key_gen<R>(
        pp: &Self::PublicParameter,
        prng: &mut R,
    ) -> Result<(Self::SigningKey, Self::VerificationKey), SignatureError>;
    fn sign<R, M: AsRef<[Self::MessageUnit]>>(
        pp: &Self::PublicParameter,
        sk: &Self::SigningKey,
        msg: M,
        prng: &mut R,
    ) -> Result<Self::Signature, SignatureError>;
    fn verify<M: AsRef<[Self::MessageUnit]>>(
        pp: &Self::PublicParameter,
        vk: &Self::VerificationKey,
        msg: M,
        sig: &Self::Signature,
    ) -> Result<(), SignatureError>;
}

#[derive(Debug)]
pub struct SignatureError;
impl std::fmt::Display for SignatureError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stub")
    }
}
impl std::error::Error for SignatureError {}

pub mod bls_over_bn254 {
    use super::{SignatureError, SignatureScheme};
    use ark_serialize::{
        CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid,
        Validate, Write,
    };

    macro_rules! opaque {
        ($n:ident) => {
            #[derive(Clone, PartialEq, Eq, Debug)]
            pub struct $n(());
            impl CanonicalSerialize for $n {
                fn serialize_with_mode<W: Write>(
                    &self,
                    _w: W,
                    _c: Compress,
                ) -> Result<(), SerializationError> {
                    unimplemented!()
                }
                fn serialized_size(&self, _c: Compress) -> usize {
                    unimplemented!()
                }
            }
            impl Valid for $n {
                fn check(&self) -> Result<(), SerializationError> {
                    unimplemented!()
                }
            }
            impl CanonicalDeserialize for $n {
                fn deserialize_with_mode<R: Read>(
                    _r: R,
                    _c: Compress,
                    _v: Validate,
                ) -> Result<Self, SerializationError> {
                    unimplemented!()
                }
            }
        };
    }
    opaque!(VerKey);
    opaque!(SignKey);
    opaque!(Signature);

    #[derive(Clone)]
    pub struct BLSOverBN254CurveSignatureScheme;
    impl SignatureScheme for BLSOverBN254CurveSignatureScheme {
        type SigningKey = SignKey;
        type VerificationKey = VerKey;
        type PublicParameter = ();
        type Signature = Signature;
        type MessageUnit = u8;
        fn key_gen<R>(_: &(), _: &mut R) -> Result<(SignKey, VerKey), SignatureError> {
            unimplemented!()
        }
        fn sign<R, M: AsRef<[u8]>>(
            _: &(),
            _: &SignKey,
            _: M,
            _: &mut R,
        ) -> Result<Signature, SignatureError> {
            unimplemented!()
        }
        fn verify<M: AsRef<[u8]>>(
            _: &(),
            _: &VerKey,
            _: M,
            _: &Signature,
        ) -> Result<(), SignatureError> {
            unimplemented!()
        }
    }
}
