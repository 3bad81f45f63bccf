"""Techniques of the checks outside of the stock suite."""
BOUND = "Exhaustive within the stated bounds; what is outside of them is not covered."
CLAIMS = {
    "S11": ("TLA+ specification spec/Persist.tla explored by TLC (exhaustively to a depth and by simulation); each step "
            "is replayed into a real Stock over a file store with injected faults, memory and disk contents compared",
            BOUND),
    "M01": ("TLA+ specification spec/Merge.tla: join laws checked by TLC over all pairs of partially revealed copies, "
            "each merge replayed into the code and compared bytewise with the specified result", BOUND),
}
CLAIMS["S12"] = CLAIMS["S11"]
INVOICE = ("TLA+ specification spec/Invoice.tla: TLC enumerates invoices and texts put together of valid, debatable and "
           "malformed lexemes with their specified meaning; each is printed or read by the code and compared", BOUND)
AMOUNT = ("TLA+ specification spec/Amount.tla over decimal digits (spec/Num.tla): TLC enumerates boundary values, "
          "precisions and all short texts with the specified results; each is computed by the code and compared", BOUND)
CLAIMS.update({"V01": INVOICE, "V02": INVOICE, "V03": AMOUNT, "V04": AMOUNT, "V05": AMOUNT})
CONTAINER = ("TLA+ specification spec/Container.tla: TLC enumerates container contents, ways of writing them and kinds of "
             "damage with the specified outcomes; each is built, written, damaged and read by the code and compared", BOUND)
CLAIMS.update({"C01": CONTAINER, "C02": CONTAINER, "C04": CONTAINER})
COMPOSE = ("TLA+ specification spec/Compose.tla: TLC enumerates layouts of state over outputs, invoices and allocators with the "
           "specified batches or refusals and checks that nothing is lost or made up; each payment is composed by a real Stock "
           "holding that state, the batch compared and its commitments balanced", BOUND)
CLAIMS.update({"P01": COMPOSE, "P02": COMPOSE, "P03": COMPOSE, "P04": COMPOSE})
BUILDER = ("TLA+ specification spec/Builder.tla: TLC enumerates sequences of calls of contract and transition builders with the "
           "specified outcome of each call and contents of the operation; each sequence is run by the real builders, outcomes "
           "and contents compared and commitments balanced", BOUND)
CLAIMS.update({"B01": BUILDER, "B02": BUILDER, "B03": BUILDER})
IFACE = ("TLA+ specification spec/Iface.tla: TLC enumerates pairs of interfaces differing in up to two (three) items, checks that "
         "the specified extension keeps all requirements, and each pair is extended (each interface checked) by the code and compared", BOUND)
CLAIMS.update({"I01": IFACE, "I06": IFACE})
IMPL = ("TLA+ specification spec/Impl.tla: TLC enumerates names of interfaces, mappings to a schema and inheritance lists with the "
        "specified problems, abstracted mappings and serving implementations; each is put to the code (and a real Stock) and compared", BOUND)
CLAIMS.update({"I02": IMPL, "I03": IMPL})
ROOT = ("TLA+ specification spec/Root.tla: TLC enumerates pairs of schemata differing in one or two places with everything going beyond the "
        "root; each pair is compared by the code and the reported problems with the specified ones", BOUND)
CLAIMS.update({"I07": ROOT})
KIT = ("TLA+ specification spec/Kit.tla: TLC enumerates histories of imports of complete and incomplete kits (signatures, supplements and trust "
       "levels), checks that knowledge only grows and exports are usable; each history is run on a real Stock and what it knows and exports compared", BOUND)
CLAIMS.update({"K01": KIT, "K02": KIT})
NOTE = ("TLA+ specification spec/Note.tla: TLC enumerates histories of annotating a supplement, checks that refused annotations change nothing, "
        "and each history is run by the code, results and all annotations compared", BOUND)
DESCR = ("TLA+ specification spec/Descr.tla: TLC enumerates texts by classes of characters and lengths at the limits and pairs of tickers with the "
         "specified outcome; each description is made, encoded, read back from state and compared by the code", BOUND)
CLAIMS.update({"K03": NOTE, "V06": DESCR})
VIEW = ("TLA+ specification spec/View.tla: TLC enumerates contracts with up to three (four) pieces of state, statuses of witnesses, wallets "
        "and filters, checks that histories add up, and each contract is made in a real Stock, read through its interface and compared", BOUND)
CLAIMS.update({"I04": VIEW, "I05": VIEW})
