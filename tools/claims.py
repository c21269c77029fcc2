NA = {}
c("C01 C02 C03 C05", "Unbounded proof on serialapi.Decode and everything it calls: every buffer of every length and content.")
c("C04", "Unbounded proof on CompileMessage for every payload of up to 253 bytes; the decode half uses Decode's contract, itself proved in the same run.")
c("C06", "Unbounded proof on NewMessage and NewApplicationCommandHandler, including the report built by the dispatcher.")
c("C07", "Unbounded proof: the loop over the bitmap is decided with its inferred and checked invariant for bitmaps of every length.")
c("C08", "Complete proof for every payload of every length.")
c("C09", "Unbounded proof for every sensor payload; floating-point division is IEEE division (left uninterpreted where congruence suffices).")
c("C10", "Unbounded proof for every payload of each report constructor.")
c("C11", "Complete proof for all 256 duration bytes.")
c("C12", "Unbounded proof on the dispatcher for every class, code and payload, including String and SetNode of whatever report it returns.")
c("C13", "Unbounded proof for every node number and every level except NaN (not a number).")
c("C14", "Unbounded proof for every wrapped command (of at least three bytes for the encapsulation, which needs function, node and length).")
c("C15", "Unbounded proof: Match for every frame and request; the receiver against every stream, every pending table and every interference by other goroutines at its lock points.")
c("C16 C17 C21", "Unbounded rely/guarantee proof over the receiver, the sender, the timeout worker and the sending calls: at each lock point the table is any table the other goroutines may leave.")
c("C18 C19", "Unbounded proof over the receiver for every stream of bytes, cut into reads in any way, with any pauses and read errors.")
c("C20", "Unbounded rely/guarantee proof over the sender for every sequence of queued commands and of results, and over the receiver for the result it hands to the sender.")
c("C22", "Unbounded proof over the timeout worker for every pending table.")
c("C23", "Unbounded proof over Write, WriteWithTimeout, WriteAndWaitForReport and newSendPackage, with any interference at each lock, channel and spawn point.")
c("C24", "Unbounded proof for every node, list of command classes and level.")
c("C25", "Unbounded proof for every node, endpoint list and endpoint number.")
c("C26", "Unbounded rely/guarantee proof over ProcessEvent and isAwake for every report and every state; over the receiver for the handing on of reports.")
c("C27", "Unbounded proof: every path through the operations under contract keeps locks balanced, takes none twice and holds none while it waits for others without a time limit.")
c("C28", "Unbounded rely/guarantee proof over the list's operations for every list.")
c("C29", "Unbounded proof over getNodes and initNode for every reply and every set of known nodes; the node list by its contract (C28).")
c("C33", "Unbounded proof over the recorder for every buffer, port behaviour, reuse of the buffer and number of openings; gob's encoding is the standard library's.")
c("C34", "Unbounded proof over combine and flush for every state and row, and over the tool's main for every recording and all flags; sort.Sort is assumed to sort by what Len, Less and Swap do, which is proved.")
c("C32", "Unbounded proof over the save with a ghost file system, for every failure and every crash point, and over loading for every decodable file; the JSON text itself is the standard library's.")
c("C36", "Unbounded proof over pushEvent and the saver for every event and every sequence of requests and pauses.")
c("C37", "Unbounded proof over opening a controller, for every opener, file, result and sequence of attempts.")
c("C35", "Unbounded proof over Identify and its four requests for every node and every sequence of answers; Identify uses the requests' contracts, and the two database lookups by what C30 and C31 state about them.")
c("C30", "Complete proof over database.New for every triple of four-digit hex ids (2^48), and over every device constructor of the package.")
c("C31", "Unbounded proof for every set of definitions (not only the present one), every pair of classes and every iteration order.")
