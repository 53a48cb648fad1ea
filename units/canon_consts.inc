@@item canonicalize.rs::SP
@@end
@@item canonicalize.rs::CR
@@end
@@item canonicalize.rs::LF
@@end
@@item canonicalize.rs::CRLF
@@end
