@@item record.rs::ServiceType
@@end
@@item record.rs::SelectorFlag
@@end
@@item record.rs::DkimKeyRecordError
@attr
#[derive(Clone, Copy)]
@@end
@@item record.rs::DkimKeyRecord
@@end
