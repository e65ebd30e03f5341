NETMODEL = ("Random search only: no absence claim. The service is a fake on the loopback network whose "
            "behaviour follows the client's protocol; the actual service is not available offline.")
prop("V01", "LOGIN, LOGOUT, SHARE and SIGNUP do what the user asks in the user's name only",
 "For every sequence of these commands, mounted drives and server answers: LOGIN sends exactly the given credentials, and after success the user is logged in with CLOUD mounted on the user's files, while any failure leaves nobody logged in; all requests until LOGOUT carry that session's token and none after it do. LOGOUT ends the session on the server and unmounts CLOUD, and is refused without a session or within CLOUD. SHARE shows the readers of a file or requests exactly the additions and removals listed, rejects malformed ones before changing anything, and prints the address of files made public. SIGNUP asks until answers are valid, never shows passwords, and requests the account only once confirmed. Errors of the server reach the user as errors of the statement, and never crash.",
 ["inputs", "histories", "faults"], "All sequences of commands with any names, credentials, ACLs, answers to the dialogs and interruptions, and servers that fail or answer garbage at any request.",
 "Tests mock each call with a fixed answer; sessions, drives and failures interleave, and requests on the wire are never examined offline.",
 ["client/src/cmds.rs", "client/src/cloud.rs", "client/src/drive.rs"],
 [("commands", "client/src/cmds.rs: LoginCommand, LogoutCommand, ShareCommand, SignupCommand"), ("session", "client/src/cloud.rs: CloudService")],
 "stateful property-based testing: random sessions over loopback HTTP with injected faults vs. a model of the client and the service", NETMODEL, ["requests received by the server", "console output and errors", "login state and mounted drives"])

prop("V02", "Cloud drives read and write exactly the named files of their owner",
 "For every sequence of operations on mounted cloud drives, any file names and any contents: reading, writing, copying, deleting, listing and changing or reading ACLs act on exactly the named file of the drive's user, with all bytes intact, and no other; a name never aliases another one on its way to the server. Listings tell names, sizes, dates, quotas and free space as the server does. Writes without a session fail without contacting the server, and each failure reported by the server becomes an error of the same kind with the server's message free of control characters.",
 ["inputs", "histories", "faults"], "All sequences of storage operations across local and cloud drives with any names and contents, sessions of any user, and failures at any request.",
 "Tests of the actual client need the production server and are skipped; mocked ones never build a URL.",
 ["client/src/cloud.rs", "client/src/drive.rs", "std/src/storage/mod.rs"],
 [("requests", "client/src/cloud.rs: CloudService"), ("drive", "client/src/drive.rs: CloudDrive, CloudDriveFactory"), ("errors", "client/src/cloud.rs: http_response_to_io_error")],
 "stateful property-based testing: random storage histories over loopback HTTP with injected faults vs. a model of the service", NETMODEL, ["requests received by the server", "results and errors of the storage", "files held by the server"])
