//! Type-level obligations of property C26: this crate compiles only if they hold.
//!
//! Every function is one obligation, for all types that satisfy its bounds.

#![allow(dead_code)]

use std::error::Error;
use viadkim::{
    canonicalize::BodyCanonicalizer,
    crypto::{self, CountingHasher, HashAlgorithm, HashStatus, InsufficientInput, KeyType, VerifyingKey},
    header::HeaderFieldError,
    message_hash::{BodyHashError, BodyHashResults, BodyHasher, BodyHasherBuilder, BodyHasherStance},
    quoted_printable::QuotedPrintableError,
    record::{DkimKeyRecord, DkimKeyRecordError, SelectorFlag, ServiceType},
    signature::{
        Canonicalization, CanonicalizationAlgorithm, DkimSignature, DkimSignatureError,
        DkimSignatureErrorKind, DomainName, Identity, ParseAlgorithmError, ParseDomainError,
        ParseIdentityError, Selector, SigningAlgorithm,
    },
    signer::{BodyLength, HeaderSelection, OutputFormat, RequestError, Timestamp},
    verifier::{LookupTxt, PolicyError},
    Base64Error, Config, DkimResult, FieldBody, FieldName, HeaderFields, SignRequest, Signer,
    SigningError, SigningKey, SigningOutput, VerificationError, VerificationResult,
    VerificationStatus, Verifier,
};

fn send<T: Send>(_: T) {}
fn send_ty<T: Send>() {}
fn shared<T: Send + Sync>() {}
fn error<T: Error + Send + Sync + 'static>() {}

// -- futures ----------------------------------------------------------------

fn future_of_header_verification<T>(resolver: &T, headers: &HeaderFields, config: &Config)
where
    T: LookupTxt + Clone + Send + Sync + 'static,
    T::Answer: Send,
{
    send(Verifier::verify_header(resolver, headers, config));
}

fn future_of_header_verification_in_caller<T>(resolver: T, headers: HeaderFields, config: Config)
where
    T: LookupTxt + Clone + Send + Sync + 'static,
    T::Answer: Send,
{
    send(async move {
        let verifier = Verifier::verify_header(&resolver, &headers, &config).await;
        std::future::ready(()).await;
        verifier.map(|v| v.finish())
    });
}

fn future_of_signing<T>(signer: Signer<T>)
where
    T: AsRef<SigningKey> + Send + Sync + 'static,
{
    send(signer.sign());
}

fn future_of_signing_in_caller<T>(signer: Signer<T>)
where
    T: AsRef<SigningKey> + Send + Sync + 'static,
{
    send(async move {
        let results = signer.sign().await;
        std::future::ready(()).await;
        results
    });
}

fn future_of_signing_with_shared_key(signer: Signer<std::sync::Arc<SigningKey>>) {
    send(signer.sign());
}

// -- values -----------------------------------------------------------------

fn signer<T: AsRef<SigningKey> + Send + Sync>() {
    shared::<Signer<T>>();
}

fn sign_request<T: Send + Sync>() {
    shared::<SignRequest<T>>();
}

fn sign_results() {
    shared::<Vec<Result<SigningOutput, SigningError>>>();
}

fn sign_options() {
    shared::<BodyLength>();
    shared::<HeaderSelection>();
    shared::<OutputFormat>();
    shared::<Timestamp>();
}

fn verifier() {
    shared::<Verifier>();
}

fn verifier_configuration() {
    shared::<Config>();
}

fn verification_results() {
    shared::<VerificationResult>();
    shared::<VerificationStatus>();
    shared::<DkimResult>();
    shared::<PolicyError>();
}

fn keys() {
    shared::<SigningKey>();
    shared::<VerifyingKey>();
    shared::<KeyType>();
    shared::<HashAlgorithm>();
    shared::<DkimKeyRecord>();
    shared::<SelectorFlag>();
    shared::<ServiceType>();
}

fn message_parts() {
    shared::<FieldName>();
    shared::<FieldBody>();
    shared::<HeaderFields>();
    shared::<DkimSignature>();
    shared::<Canonicalization>();
    shared::<CanonicalizationAlgorithm>();
    shared::<DomainName>();
    shared::<Identity>();
    shared::<Selector>();
    shared::<SigningAlgorithm>();
}

fn hashers() {
    shared::<BodyCanonicalizer>();
    shared::<BodyHasher>();
    shared::<BodyHasherBuilder>();
    shared::<BodyHashResults>();
    shared::<BodyHasherStance>();
    shared::<CountingHasher>();
    shared::<HashStatus>();
}

fn errors() {
    error::<RequestError>();
    error::<SigningError>();
    error::<VerificationError>();
    error::<crypto::SigningError>();
    error::<crypto::VerificationError>();
    error::<crypto::DecodeSigningKeyError>();
    error::<DkimSignatureError>();
    error::<DkimKeyRecordError>();
    error::<ParseAlgorithmError>();
    error::<ParseDomainError>();
    error::<ParseIdentityError>();
    error::<HeaderFieldError>();
    error::<QuotedPrintableError>();
    error::<Base64Error>();
    error::<InsufficientInput>();
    error::<BodyHashError>();
    shared::<DkimSignatureErrorKind>();
}
