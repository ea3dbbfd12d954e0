"""What each check claims; MANIFEST.json is made from this."""
TRACE = ("TLA+ node specification (DWNode): small instances explored completely, environments generated from it replayed into the "
         "real node, TLC trace validation of every execution")
NOTE = ("Every execution of the real dw_node under a seeded, adversarial environment is checked by TLC to be a behaviour of the TLA+ "
        "specification, completeness included (at every quiescent point nothing may be left undone). Bounded by the executions run; "
        "trusts the syscall shim and the loopback kernel.")
CLIENT = "TLA+ client specification (DWClient), TLC trace validation of executions of the real client in virtual time"
CNOTE = ("Every execution of the real dw_client against a seeded adversarial server, on a virtual clock, is checked by TLC to be a "
         "behaviour of the TLA+ specification, output lines and completeness included. Bounded by the executions run; trusts the "
         "syscall shim and the loopback kernel.")
CLI = "TLA+ meaning of command lines (DWCli), TLC judges the requests the real client makes of them, exhaustively for short ones"
ONOTE = ("All short sequences of command options and seeded longer ones are given to the real dw_client; TLC computes from the "
         "specification which requests they mean and compares. Trusts the wire decoder.")
UNIT = "TLA+ specification of the queue, TLC judges operation sequences run on the real code, exhaustively for short ones"
UNOTE = "All short operation sequences and seeded long ones run on the repository's own code; TLC checks every observation."
PLAIN = "TLA+ node specification (DWNode), TLC trace validation of executions of the real node"
CLAIMS = {p: (PLAIN if p in ("C02", "C10", "C18", "C19", "C21", "C25") else TRACE, "model_checking", NOTE) for p in
          ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C18", "C19", "C21", "C25")}
CLAIMS["C27"] = ("TLA+ node specification (DWNode): small instances explored completely, TLC trace validation of executions of the real node "
                 "that are interrupted by tens of thousands of requests or connections", "model_checking",
                 NOTE + " The requests that age the node are not recorded one by one; each is compared with the one outcome the specification "
                 "leaves it, and TLC is told how many went right.")
CLAIMS.update({p: (CLIENT, "model_checking", CNOTE) for p in ("C11", "C12", "C23")})
CLAIMS.update({p: (CLI, "model_checking", ONOTE) for p in ("C13", "C14")})
CLAIMS.update({p: (UNIT, "model_checking", UNOTE) for p in ("C15", "C16")})
CLAIMS["C17"] = ("TLA+ meaning of numeric options (DWDist), TLC judges the values in the requests of the real client", "model_checking",
                 "Seeded specifications of every kind through every option that takes one; exact for constants, sequences and files, bounds "
                 "for random ones. Limited to values exactly representable with 32 bits.")
CLAIMS["C20"] = ("TLA+ meaning of core lists (DWAff), TLC judges the pinning calls of the real node", "model_checking",
                 "All ranges with all steps on small machines and seeded lists on larger ones; the number of cores and the pinning calls "
                 "are stood in for by the shim.")
CLAIMS["C22"] = ("TLA+ meaning of addresses (DWAddr), all texts generated by TLC, TLC judges which addresses the real programs use", "model_checking",
                 "All addresses over a set of hosts and ports at every option, and seeded lists; name lookup, binding and connecting are stood "
                 "in for by the shim.")
CLAIMS["C24"] = ("TLA+ meaning of socket and scheduling options (DWKernel), TLC judges what the real programs ask of the kernel", "model_checking",
                 "Seeded option values and environments; TCP_NODELAY is read from the live sockets whenever they are sent on, scheduling calls "
                 "are stood in for by the shim. Trusts the kernel to do what it is asked.")
CLAIMS["C26"] = ("TLA+ specification of clients and nodes together (DWSystem): every short command line explored in all orders, run on real "
                 "clients and nodes, TLC trace validation of every execution", "model_checking",
                 "All short command lines and seeded systems of up to four clients and four nodes, all real programs; their steps are recorded in one "
                 "order. Nothing fails in these runs. Bounded by the executions run; trusts the syscall shim and the loopback kernel.")
NA = {}
