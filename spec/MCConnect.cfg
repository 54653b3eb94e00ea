SPECIFICATION Spec
INVARIANTS NothingInTheClear SecureUrlsAreTls PlainUrlsAreNot Explicit AskedOnlyTrusted HostlessStaysHome RightPort NoTrustByDefault
PROPERTIES Ends
CHECK_DEADLOCK FALSE
