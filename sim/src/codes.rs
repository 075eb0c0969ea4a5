//! What errors say: the code, its status, and whose fault it is.

use crate::core::net::Resp;
use crate::model::{odd, untracked, Eff, Obs};
use crate::plan::*;
use crate::xml;

/// the error codes of S3 and their statuses
const TABLE: &[(u16, &[&str])] = &[
    (
        400,
        &[
            "AmbiguousGrantByEmailAddress",
            "AuthorizationHeaderMalformed",
            "AuthorizationQueryParametersError",
            "BadDigest",
            "BadRequest",
            "CredentialsNotSupported",
            "EntityTooLarge",
            "EntityTooSmall",
            "ExpiredToken",
            "IllegalLocationConstraintException",
            "IllegalVersioningConfigurationException",
            "IncompleteBody",
            "IncorrectNumberOfFilesInPostRequest",
            "InlineDataTooLarge",
            "InvalidArgument",
            "InvalidBucketName",
            "InvalidDigest",
            "InvalidEncryptionAlgorithmError",
            "InvalidLocationConstraint",
            "InvalidPart",
            "InvalidPartOrder",
            "InvalidPolicyDocument",
            "InvalidRequest",
            "InvalidSOAPRequest",
            "InvalidStorageClass",
            "InvalidTag",
            "InvalidTargetBucketForLogging",
            "InvalidToken",
            "InvalidURI",
            "KeyTooLongError",
            "MalformedACLError",
            "MalformedPOSTRequest",
            "MalformedXML",
            "MaxMessageLengthExceeded",
            "MaxPostPreDataLengthExceededError",
            "MetadataTooLarge",
            "MissingRequestBodyError",
            "MissingSecurityElement",
            "MissingSecurityHeader",
            "NoLoggingStatusForKey",
            "RequestIsNotMultiPartContent",
            "RequestTimeout",
            "RequestTorrentOfBucketError",
            "TokenRefreshRequired",
            "TooManyBuckets",
            "UnexpectedContent",
            "UnresolvableGrantByEmailAddress",
            "UserKeyMustBeSpecified",
            "XAmzContentSHA256Mismatch",
        ],
    ),
    (
        403,
        &[
            "AccessDenied",
            "AccountProblem",
            "AllAccessDisabled",
            "InvalidAccessKeyId",
            "InvalidObjectState",
            "InvalidPayer",
            "InvalidSecurity",
            "NotSignedUp",
            "RequestTimeTooSkewed",
            "SignatureDoesNotMatch",
        ],
    ),
    (404, &["NoSuchBucket", "NoSuchBucketPolicy", "NoSuchKey", "NoSuchLifecycleConfiguration", "NoSuchUpload", "NoSuchVersion"]),
    (405, &["MethodNotAllowed"]),
    (409, &["BucketAlreadyExists", "BucketAlreadyOwnedByYou", "BucketNotEmpty", "InvalidBucketState", "OperationAborted", "RestoreAlreadyInProgress"]),
    (411, &["MissingContentLength"]),
    (412, &["PreconditionFailed"]),
    (416, &["InvalidRange"]),
    (500, &["InternalError"]),
    (501, &["NotImplemented"]),
    (503, &["ServiceUnavailable", "SlowDown"]),
];

/// a name the server cannot store
const NAME: &[&str] = &["InvalidRequest", "InvalidArgument", "InvalidURI", "KeyTooLongError", "InvalidBucketName", "UnexpectedContent", "UserKeyMustBeSpecified", "NoSuchKey", "NoSuchBucket", "NoSuchUpload", "MetadataTooLarge"];
const LATE: &[&str] = &["RequestTimeTooSkewed", "AccessDenied", "ExpiredToken"];

pub struct Seen<'a> {
    pub op: &'a Op,
    pub step: &'a Step,
    pub eff: &'a Eff,
    pub obs: &'a Obs,
    /// a fault fired while it ran
    pub fault: bool,
    /// the body ends early
    pub incomplete: bool,
    /// the key lies below another one, or above
    pub conflict: bool,
    pub auth: bool,
    /// the upload id is none the server gave out
    pub foreign: bool,
}

pub fn known(code: &str) -> Option<u16> {
    TABLE.iter().find(|(_, l)| l.contains(&code)).map(|(s, _)| *s)
}

fn document(r: &Resp) -> Result<(), String> {
    let e = xml::parse(&r.body)?;
    if e.name != "Error" {
        return Err(format!("the body is <{}>", e.name));
    }
    let ct = r.header("content-type").unwrap_or("");
    if !(ct.starts_with("text/xml") || ct.starts_with("application/xml")) {
        return Err(format!("an error document of type {ct:?}"));
    }
    Ok(())
}

/// what is wrong with this answer
pub fn check(x: &Seen, r: &Resp) -> Option<String> {
    if let Obs::Deleted(_, errs) = x.obs {
        for (k, code) in errs {
            match known(code) {
                None => return Some(format!("error {code:?} of key {k:?} is no error of S3")),
                Some(s) if s >= 500 && s != 501 && !x.fault => return Some(format!("key {k:?} has {code} without any fault")),
                Some(s) if s < 500 && !odd(k) && !untracked(k) && !x.conflict && code != "NoSuchBucket" => return Some(format!("key {k:?} has {code}")),
                _ => {}
            }
        }
        return None;
    }
    let (s, code) = match x.obs {
        Obs::Err(s, c) => (*s, c.as_str()),
        _ => return None,
    };
    if r.status == 200 {
        // refused object by object
        return None;
    }
    let raw = matches!(x.op, Op::Raw { .. } | Op::Bytes { .. });
    let head = matches!(x.op, Op::Head { .. } | Op::HeadBucket { .. }) || matches!(x.op, Op::Raw { method, .. } if method == "HEAD") || x.step.tamper == Some(Tamper::Method);
    if !matches!(s, 400..=499 | 500 | 501 | 503) {
        return Some(format!("status {s}"));
    }
    if s >= 500 && s != 501 && !x.fault {
        return Some(format!("{s} {code} for a request that the server is able to answer"));
    }
    if matches!(x.op, Op::Bytes { .. }) {
        return None;
    }
    if code.is_empty() {
        // hyper answers what is no HTTP by itself
        if !head && !(raw && matches!(x.eff, Eff::NoServerError | Eff::Any)) {
            return Some(format!("{s} without an error document"));
        }
    } else {
        if let Err(e) = document(r) {
            return Some(e);
        }
        match known(code) {
            None => return Some(format!("error code {code:?} is no error of S3")),
            Some(k) if k != s => return Some(format!("{code} with status {s}")),
            _ => {}
        }
    }
    if raw {
        return None;
    }
    let is = |l: &[&str]| l.contains(&code) || code.is_empty() && l.iter().any(|c| known(c) == Some(s));
    // what stands in the way of a request that is otherwise fine
    let name = match x.op {
        Op::Put { k, .. } | Op::Form { k, .. } | Op::CreateUpload { k, .. } | Op::Part { k, .. } | Op::Complete { k, .. } | Op::Delete { k, .. } | Op::Get { k, .. } | Op::Head { k, .. } => odd(k) || untracked(k) || x.conflict,
        Op::Copy { sk, dk, .. } => odd(sk) || odd(dk) || untracked(sk) || untracked(dk) || x.conflict,
        _ => false,
    };
    if name && is(NAME) {
        return None;
    }
    if x.fault && s >= 500 && s != 501 {
        return None;
    }
    let plain = || -> bool {
        match x.op {
            Op::CreateBucket { .. } => is(&["BucketAlreadyExists", "BucketAlreadyOwnedByYou", "OperationAborted"]),
            Op::Get { range, .. } => is(&["NoSuchKey", "NoSuchBucket"]) || range.as_ref().map_or(false, |r| is(&["InvalidRange"]) || (crate::model::parse_range(r, 1 << 40).is_none() && is(&["InvalidRequest", "InvalidArgument"]))),
            Op::Head { .. } => is(&["NoSuchKey", "NoSuchBucket"]),
            Op::Copy { .. } => is(&["NoSuchKey", "NoSuchBucket"]),
            Op::Part { n, .. } => is(&["NoSuchUpload", "NoSuchBucket"]) || (!n.parse::<i64>().map_or(false, |n| (1..=10_000).contains(&n)) && is(&["InvalidArgument", "InvalidRequest"])),
            Op::Complete { parts, .. } => {
                let up = parts.windows(2).all(|w| w[0].n < w[1].n);
                is(&["NoSuchUpload", "NoSuchBucket"])
                    || (parts.is_empty() && is(&["MalformedXML", "InvalidRequest", "InvalidArgument", "InvalidPart"]))
                    || (!parts.is_empty() && is(&["InvalidPart"]))
                    || (!up && is(&["InvalidPartOrder"]))
                    || (parts.iter().any(|p| !(1..=10_000).contains(&p.n)) && is(&["InvalidArgument", "InvalidRequest", "MalformedXML", "InvalidPartOrder"]))
            }
            _ => is(&["NoSuchBucket"]),
        }
    };
    // an upload id or name that is none may be called malformed
    let strange = x.foreign && is(&["InvalidRequest", "InvalidArgument", "NoSuchUpload"]);
    let ok = match x.eff {
        Eff::Model | Eff::Either => plain() || strange || (*x.eff == Eff::Either && x.auth && is(LATE)),
        Eff::Reject if x.incomplete => s < 500,
        Eff::Reject => {
            let md5 = match x.op {
                Op::Put { md5, .. } | Op::Part { md5, .. } => Some(md5),
                _ => None,
            };
            match (&x.step.tamper, md5) {
                (Some(t), _) if x.auth => match t {
                    Tamper::WrongSecret | Tamper::SigFlip(_) => is(&["SignatureDoesNotMatch"]) || is(LATE),
                    Tamper::UnknownKey => is(&["InvalidAccessKeyId", "NotSignedUp"]) || is(LATE),
                    Tamper::NoAuth => is(&["AccessDenied", "MissingSecurityHeader"]),
                    Tamper::Algorithm => matches!(s, 400 | 403 | 501),
                    _ => matches!(s, 400 | 403),
                },
                (None, Some(md5)) if x.step.xh.iter().any(|(n, _)| n == "x-amz-storage-class") => {
                    is(&["InvalidStorageClass"]) || (*md5 != Md5Hdr::None && is(&["BadDigest", "InvalidDigest"])) || plain() || strange || is(LATE)
                }
                (None, Some(Md5Hdr::Bad)) => is(&["BadDigest"]) || plain() || strange || is(LATE),
                (None, Some(Md5Hdr::Garbage)) => is(&["InvalidDigest", "BadDigest"]) || plain() || strange || is(LATE),
                _ => match x.op {
                    Op::Form { fmut, .. } if x.auth => match fmut {
                        FormMut::CondLen => is(&["EntityTooLarge", "EntityTooSmall"]) || plain(),
                        FormMut::SigFlip => is(&["SignatureDoesNotMatch"]),
                        FormMut::UnknownKey => is(&["InvalidAccessKeyId", "NotSignedUp", "AccessDenied"]),
                        FormMut::Expired(_) | FormMut::CondKey | FormMut::CondPrefix | FormMut::CondBucket | FormMut::CondField | FormMut::ExtraField => is(&["AccessDenied", "InvalidPolicyDocument"]),
                        FormMut::OnObject(_) => s < 500 || s == 501,
                        _ => s < 500,
                    },
                    _ => s < 500 || (s == 501 && matches!(x.op, Op::Form { .. })),
                },
            }
        }
        _ => true,
    };
    if ok {
        None
    } else {
        Some(format!("{s} {code} does not name the reason"))
    }
}
