#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech)))

NOSTOCK = "The existing stock tests only call each method on an empty stock or a dumb object; none imports a real contract, so no history of operations is ever reached."

p("S01", "Owned state is what accepted operations assigned under live witnesses",
  "At every moment the owned state a stock reports for a contract consists of exactly the revealed assignments of its genesis and of every accepted operation whose witness transaction the stock currently believes mined or tentative, each reported once with its own kind, value, output and the witness under which it was last accepted as live. State of an operation whose witness is archived is hidden, and is visible again as soon as that witness is known to be live or the operation is accepted under another live witness. The same holds for every view of it: by contract, by output, by assignment type.",
  ["histories"], "all sequences of importing contracts, accepting transfers, consuming own fascia and refreshing witnesses, for all operation graphs and witness fates",
  NOSTOCK, ["src/persistence/memory.rs", "src/persistence/state.rs", "src/contract/assignments.rs", "src/persistence/stock.rs"],
  "contract state accumulates every assignment with its witness; reads filter by the witness order map")
p("S02", "Accepting consignments is idempotent and order-independent",
  "Accepting a valid consignment or fascia a second time changes nothing that can be observed of the stock. Accepting the same collection of consignments in any order leads to the same observable contract state, index answers and stored history.",
  ["histories", "schedules"], "all orders and repetitions of accepting a collection of consignments over shared histories",
  NOSTOCK, ["src/persistence/stock.rs", "src/persistence/stash.rs", "src/persistence/state.rs", "src/persistence/index.rs", "src/contract/merge_reveal.rs"],
  "consume_consignment/consume_fascia merging into stash, state and index")
p("S03", "Known history is never forgotten or concealed again",
  "Once a stock has learned an operation, a revealed seal or value of an assignment, a witness transaction or a commitment proof, no later operation on the stock makes it lose that piece of data. Merging partially concealed copies of the same data keeps everything that any of the copies reveals.",
  ["histories", "inputs"], "all sequences of accepting differently concealed or partial copies of the same bundles, geneses, witnesses and anchors",
  NOSTOCK + " Merge code is not tested at all.", ["src/contract/merge_reveal.rs", "src/persistence/stash.rs", "src/containers/anchors.rs"],
  "MergeReveal implementations applied when consuming bundles, geneses and witnesses")
p("S04", "Refreshing witnesses mirrors what the resolver reports",
  "After refreshing witnesses, every known witness that is not settled below the given height has exactly the status the resolver reported for it, and all other witnesses keep their status. A witness for which the resolver fails keeps its former status and is listed as failed, and only the successfully resolved ones are counted as updated.",
  ["histories", "fault_sequences"], "all sequences of mining, reorganisation, replacement and resolver failures, all cut-off heights",
  NOSTOCK, ["src/persistence/memory.rs", "src/persistence/state.rs"], "update_witnesses over the witness order map")
p("S05", "Global state is read completely and in consensus order",
  "Reading a contract's global state of some type yields only items of operations whose witnesses are live (and of genesis), each once, in consensus order of their operations, limited to the number of items the schema allows. Its size, sequential and random access all agree, repeatedly and in any order of calls, and never crash.",
  ["histories", "inputs"], "all operation graphs, witness orders and archivals, all sequences of iterator calls",
  "No test stores any global state.", ["src/persistence/memory.rs", "src/contract/mod.rs"], "MemContract global state iterator: filter, order, limit, size/reset/prev/last")
p("S06", "Lookups by output and seal are exact",
  "The contracts a stock reports as assigning state to a set of outputs are exactly those with a known assignment there, each once. The assignments it reports or exports for outputs or secret seals are exactly those placed there, whatever closing method their seal uses, and every known operation can be traced to its bundle, contract and witnesses.",
  ["histories", "inputs"], "all sets of contracts, operations, seals (same output with different closing methods, witness-relative outputs) and queries",
  NOSTOCK, ["src/persistence/index.rs", "src/persistence/memory.rs", "src/persistence/stock.rs"], "Index maps filled while consuming consignments/fascia")
p("S07", "An exported consignment is complete and proves its state",
  "A consignment exported for some outputs or a secret seal contains genesis and every ancestor operation of the state on them, each in a bundle proved by a witness that is currently live, together with the schema, interfaces, implementations, types and scripts it needs. It passes validation, and a fresh stock accepting it reports the same state on those outputs. When some ancestor is unknown or has no live witness the export is refused instead.",
  ["histories"], "all operation graphs, selections of outputs and seals, witness fates and prior imports",
  NOSTOCK, ["src/persistence/stock.rs", "src/containers/consignment.rs", "src/containers/partials.rs", "src/containers/indexed.rs"], "consign(): closure over inputs, client_bundle, select_valid_witness, extract")
p("S08", "Terminals of an exported transfer mark exactly the requested seal",
  "The endpoints listed by an exported transfer are exactly the bundles containing an assignment to the requested secret seal, labelled with that seal; there are none without a requested seal. Exporting never fails merely because several requested outputs belong to one operation.",
  ["histories", "inputs"], "all operations with any number of outputs to the same or different secret seals and all combined selections",
  NOSTOCK, ["src/persistence/stock.rs", "src/containers/consignment.rs"], "terminals map collected during consign")
p("S09", "A receiver's stored seal reveals the state assigned to it",
  "When a stock holds the definition of a secret seal and accepts a consignment whose terminal uses that seal, the assigned state becomes visible to it on the right output. Without the definition the state stays unallocated, and no other assignment is touched.",
  ["histories"], "all orders of storing seals and accepting consignments, explicit and witness-relative seals, several seals per bundle",
  NOSTOCK, ["src/persistence/stash.rs", "src/containers/consignment.rs", "src/containers/partials.rs", "src/contract/assignments.rs"], "resolve_secrets/reveal_terminal_seals before consuming")
p("S10", "A failed operation leaves the stock consistent",
  "If accepting a consignment or fascia, or another stock operation, fails, everything the stock knew before is still there and answers unchanged, and repeating the operation once the cause is gone gives the same result as if it had never failed.",
  ["fault_sequences", "histories"], "resolver or storage failures at every point of every operation, malformed fascia, unknown contracts",
  "No test injects a fault.", ["src/persistence/stock.rs", "src/persistence/memory.rs", "src/persistence/state.rs"], "store_transaction ordering of state, index and stash updates")
p("S11", "A stored stock reloads as the same stock",
  "Saving a stock and loading it back yields a stock giving the same answers to every query and reacting identically to every later operation. With automatic saving, what is on storage after each successfully completed operation already is the current stock.",
  ["histories", "crash_points"], "all histories of operations, reload after each of them",
  "The file-system store is never exercised with data in it.", ["src/persistence/fs.rs", "src/persistence/memory.rs", "src/persistence/stock.rs"], "strict serialization of the in-memory providers; mark_dirty/store on transactions")
p("S12", "Storage failures are reported and lose nothing in memory",
  "When the storage fails while an operation is being saved, the operation reports an error rather than success, and the stock does not crash. Everything known before the operation stays available in memory and can be stored completely once the storage works again.",
  ["fault_sequences"], "a storage failure at each of the writes made by each operation",
  "No test makes a store fail.", ["src/persistence/stock.rs", "src/persistence/memory.rs", "src/persistence/fs.rs"], "begin/commit/rollback of the three providers")
p("P01", "Composing pays the beneficiary exactly and returns the change",
  "Transitions composed for an invoice assign to the beneficiary's seal exactly the invoiced amount or token, and to the sender's change outputs exactly the rest of the invoiced asset found on the spent outputs. Nothing is created, lost or assigned to anybody else, whatever mixture of closing methods the spent outputs use.",
  ["inputs", "histories"], "all invoices, sets of spent outputs, allocations of several kinds and types per output, closing methods",
  "There is no test composing anything.", ["src/persistence/stock.rs", "src/interface/builder.rs", "src/containers/partials.rs"], "compose_deterministic: main/alternative builder, change computation")
p("P02", "Composing preserves all other state on the spent outputs",
  "Every piece of state on a spent output that is not what the invoice asks for, of the invoiced contract and of every other contract, is spent by exactly one composed transition and reassigned, unchanged in type and value, to an output the sender's allocator chose for it, being told how often such state moves as the contract's supplement has it. Each transition only spends outputs of a single closing method and lists exactly the seals it closes.",
  ["inputs", "histories"], "all combinations of contracts and state types sharing spent outputs, all closing methods",
  "There is no test composing anything.", ["src/persistence/stock.rs", "src/interface/builder.rs", "src/containers/partials.rs"], "compose_deterministic: non-invoiced state, blank transitions per contract and method")
p("P03", "Composing refuses what it cannot honour",
  "Composing fails, with the reason, when the spent outputs lack the invoiced state, the invoice is expired or lacks contract or interface, the beneficiary output is missing or superfluous, or the allocator offers no output for state that needs one. It never returns a batch that underpays.",
  ["inputs"], "all invoices and allocators, amounts at and around the available sum",
  "There is no test composing anything.", ["src/persistence/stock.rs"], "compose_deterministic guards")
p("P04", "Batches and fascia carry coherent transitions",
  "Each transition in a batch is listed under its own operation id with its inputs and its closing method, also after its priority is set, and the batch reports exactly the closing methods its transitions use and yields each transition once. A transition closing seals of different methods is not accepted into a batch, and a fascia gives back each contract's bundles exactly once. Composing again with the same blinding factors gives the same batch.",
  ["inputs"], "all single and double (two closing methods) batches, priorities, bundle and anchor combinations",
  "Only trivial constructors are reached by tests.", ["src/containers/partials.rs", "src/containers/anchors.rs", "src/persistence/stock.rs"], "TransitionInfo/Dichotomy/Batch/Fascia/AnchorSet constructors and accessors")
p("M01", "Merging revealed copies is a join and rejects foreign data",
  "Merging two copies of the same assignment, operation, bundle, anchor or witness yields data with the same commitment that reveals exactly what at least one of them reveals; the result does not depend on the order of merging, and merging a copy with itself changes nothing. Copies that do not commit to the same thing are rejected.",
  ["inputs"], "all pairs and triples of partially concealed copies, matching and mismatching",
  "No test covers merging.", ["src/contract/merge_reveal.rs", "src/containers/anchors.rs", "src/containers/partials.rs"], "MergeReveal trait and AnchorSet/PubWitness/WitnessBundle merges")
p("C01", "Containers survive binary and armored round trips",
  "Writing a consignment, kit or universal container to a binary file, armored file or string and reading it back gives the same container with the same identifier. The armor headers agree with the content.",
  ["inputs"], "all consignments and kits with history, signatures, supplements, interfaces and scripts",
  "Tests round-trip only minimal built-in samples.", ["src/containers/file.rs", "src/containers/consignment.rs", "src/containers/kit.rs", "src/containers/suppl.rs"], "FileContent, UniversalFile, StrictArmor implementations")
p("C02", "Damaged or mislabelled containers are refused",
  "Reading a file or armored text with a wrong magic, a different container type (contract versus transfer versus kit), a truncated payload, or an armor checksum or identifier not matching the content returns an error. Binary files have no checksum: a flipped payload byte is refused or gives a different container, never the original one, and no damage of any kind makes the reader crash.",
  ["inputs"], "all byte-level corruptions and type confusions of container files and armored text",
  "Tests try a handful of corrupted samples.", ["src/containers/file.rs", "src/containers/consignment.rs", "src/containers/kit.rs"], "magic checks, armor id and check headers, type flags")
p("C03", "Only consistent consignments become valid",
  "A consignment built from a correct history validates, and one in which a needed bundle, transition, seal, anchor, type, schema item or signature of state is missing, foreign or altered, or which is for another network, does not. A container marked valid always passed this test and returns the very consignment and status it was validated with.",
  ["inputs", "histories"], "all single mutations of consignments over all generated histories",
  "No test validates a consignment with history.", ["src/containers/consignment.rs", "src/containers/indexed.rs", "src/containers/partials.rs", "src/containers/anchors.rs"], "Consignment::validate through the indexed view handed to the consensus validator")
p("C04", "A consignment's identifier commits to its content",
  "Two consignments have the same identifier when and only when they agree in kind (contract or transfer), genesis, witnessed bundles with what is revealed in them, terminals, interface implementations, types, scripts, supplements, attachments and signatures; the order in which the content was put together never matters.",
  ["inputs"], "all pairs of consignments over generated histories and their mutations",
  "Tests compare ids of fixed samples only.", ["src/containers/consignment.rs", "src/containers/kit.rs", "src/containers/partials.rs"], "CommitEncode of consignments, kits and witness bundles")
p("B01", "An issued contract contains exactly what was put into it",
  "A contract issued through the builder has a genesis with exactly the global state, owned state, asset tags and metadata that were added under interface names, translated to the schema's own types, every seal and value as given. It passes validation whenever it satisfies the schema.",
  ["programs", "inputs"], "all sequences of builder calls over all schemata and implementations in bounds",
  "No test builds a contract.", ["src/interface/builder.rs", "src/interface/iimpl.rs"], "ContractBuilder/OperationBuilder accumulation and complete()")
p("B02", "A built transition contains exactly its inputs and assigned state",
  "A transition completed by the builder spends exactly the inputs given, and assigns exactly the state that was added to exactly the given revealed or concealed seals, under the schema types the interface names stand for, including defaults. Deterministic building gives the same transition for the same calls.",
  ["programs", "inputs"], "all sequences of builder calls over all schemata and implementations in bounds",
  "No test builds a transition.", ["src/interface/builder.rs", "src/interface/iimpl.rs"], "TransitionBuilder/OperationBuilder accumulation and complete()")
p("B03", "Builders refuse what the schema or interface does not allow",
  "A builder call naming unknown state, metadata or operation, giving data not matching the declared type, or using a kind of state different from the declared one, is refused with an error and never crashes. Nothing given in a call that succeeds is silently dropped or altered, and a refused call leaves no trace.",
  ["programs", "inputs"], "all wrong calls at every position of builder call sequences",
  "No test uses a builder.", ["src/interface/builder.rs"], "BuilderError paths")
p("I01", "Interface inheritance preserves every obligation of the parents",
  "Extending an interface keeps every global, owned, valency, metadata, error and operation item of the base without changing its type, making it private, optional or not final, or lowering its least number of occurrences, and adds every item of the extension except optional operations the base lacks; extensions which can't be added so are refused naming each item in conflict. The set of ancestors of the result consists of both and of all ancestors of both.",
  ["inputs"], "all pairs of small interfaces with overlapping items and modifiers",
  "No test extends an interface.", ["src/interface/inheritance.rs", "src/interface/iface.rs"], "Iface::expect_extended and the extended() family")
p("I02", "An implementation is accepted only if it implements the interface",
  "Checking an implementation against an interface and a schema reports a problem for every name of the interface which is not mapped, for every name mapped twice, for everything mapped to what the schema lacks, for unknown errors and wrong timestamps, and reports none for a correct implementation. Optional operations may be left out or reported.",
  ["inputs"], "all small interfaces, schemata and (mis)implementations",
  "No test checks an implementation.", ["src/interface/iimpl.rs", "src/interface/iface.rs"], "IfaceImpl::check")
p("I03", "An implementation of an interface serves its ancestors with the same meaning",
  "An implementation of an interface abstracted to one of its ancestors maps each name of the ancestor to the same schema item, drops all other names and passes the check against the ancestor; an interface that is not an ancestor is refused. A contract asked for an interface is served by the implementation of that interface, else of its nearest ancestor that its schema implements, else refused.",
  ["inputs", "configurations"], "all small inheritance lists, sets of implemented interfaces and mappings",
  "No test uses inherited interfaces.", ["src/interface/inheritance.rs", "src/interface/iface.rs", "src/persistence/stash.rs", "src/persistence/stock.rs"], "abstracted(), find_abstractable_impl, contract_iface")
p("I06", "An inconsistent interface is found out",
  "Checking an interface reports every item used by an operation but not defined, every default operation or assignment that does not exist, every operation demanding several pieces of what can't be repeated, every name shared by a transition and an extension, and every required item genesis does not provide. It reports nothing else.",
  ["inputs"], "all interfaces differing from a consistent one in up to three (four) items",
  "No test checks an interface.", ["src/interface/iface.rs"], "Iface::check")
p("I07", "A schema going beyond its root schema is found out",
  "Checking a schema against a root schema reports a problem for each global state, owned state, valency, transition or extension type which the root lacks or defines differently, and for each global state, input, assignment, redeemed or provided valency of genesis or of an operation known to the root which the root lacks there or allows in different numbers. It reports nothing else: a schema only leaving out parts of the root is accepted, whatever else the root has.",
  ["inputs"], "all pairs of schemata differing in one or two places",
  "No test compares schemata.", ["src/interface/inheritance.rs"], "CheckInheritance for Schema, CheckSchemaOpInheritance")
p("I04", "Interface views show exactly the filtered state",
  "Reading a contract through an interface returns, for each named global or owned state, exactly the known state of the corresponding type that passes the given wallet filter, with values decoded as declared, and errors for unknown names.",
  ["histories", "inputs"], "all contract states, filters and names",
  "No test reads a contract.", ["src/interface/contract.rs", "src/interface/filter.rs", "src/interface/resolver.rs"], "ContractIface accessors and filters")
p("I05", "The operation history of a wallet adds up",
  "The history computed for a wallet, given by its outputs and its own transactions, lists state assigned to it by genesis as issued, state assigned to it by transactions of others as received, and state its own transactions assign to others as sent, leaving out change and anything under archived transactions. Amounts of one type are summed up per transaction, other state is listed piece by piece, and each entry names the operations, outputs and transaction it comes from.",
  ["histories", "inputs"], "all contract states, statuses of transactions and wallets",
  "No test computes a history.", ["src/interface/contract.rs"], "history_fungible/rights/data/attach, operations()")
p("K01", "Imported schema kits are complete and re-exportable",
  "Importing a kit makes every schema, interface, implementation, type and script in it available and removes nothing known, except that an implementation gives its place to a newer one of the same interface and schema; a kit with an implementation of a schema or interface neither known nor in the kit is refused and changes nothing. Exporting a schema returns a kit holding the schema with all known implementations, the interfaces they implement and every type and script they need, and importing that export elsewhere lets contracts of the schema be issued there. Listings of schemata, implementations, interfaces and contracts name exactly the known ones with the data of each.",
  ["histories", "inputs"], "all orders of importing kits over shared schemata, interfaces and implementations",
  "Tests only import an empty kit.", ["src/persistence/stash.rs", "src/persistence/stock.rs", "src/persistence/memory.rs", "src/containers/kit.rs"], "consume_kit, export_schema, extract")
p("K02", "Signatures and supplements follow content and trust",
  "Signatures delivered with contracts or kits are kept for exactly the content they sign unless their identity is known as malicious, accumulate over imports with a later signature of an identity replacing its earlier one, and are exported with contracts whose genesis, schema, interfaces or implementations they sign. Supplements are kept with the content they annotate, and each such content of an exported contract comes with one of them if any is known.",
  ["histories"], "all sequences of imports with signatures of differently trusted identities",
  "No test imports signatures.", ["src/persistence/stash.rs", "src/persistence/memory.rs", "src/containers/util.rs", "src/containers/suppl.rs"], "import_sigs, set_trust, add_supplement, consign")
p("K03", "Annotations of a supplement are kept until replaced",
  "An annotation put into a supplement is read back as given under its own subject, item and name, there only, until another one is put into the same place, and it is told whether one was replaced. An annotation which can not be stored is refused, and refusing it changes nothing; a supplement reads back from its encoding with all its annotations and the same identifier.",
  ["histories"], "all sequences of annotating subjects, items and names with values of several types, including values and numbers of annotations which do not fit",
  "No test annotates a supplement.", ["src/containers/suppl.rs"], "Supplement::annotate, annotate_default, annotate_itself, get, get_default, get_default_opt")
p("V01", "An invoice survives its text form",
  "Every invoice that can be built prints to a text that parses back to the same invoice, provided that an interface is named whenever a contract is. Every text that parses prints to a text denoting the same invoice.",
  ["inputs"], "all combinations of contract, interface, operation, assignment, state, network, beneficiary kind, transports, expiry and unknown query parameters, including values needing escaping",
  "Tests check about thirty fixed strings.", ["invoice/src/parse.rs", "invoice/src/builder.rs", "invoice/src/invoice.rs"], "RgbInvoice Display/FromStr, InvoiceState and beneficiary encodings")
p("V02", "Malformed invoices are refused",
  "A text with a wrong scheme, authority, path, contract id, network, beneficiary, amount, state, expiry or transport is refused with an error, and never read as a different payment request.",
  ["inputs"], "all single mutations of valid invoices at each component",
  "Tests check a few fixed bad strings.", ["invoice/src/parse.rs"], "RgbInvoice::from_str error paths")
p("V03", "Amount arithmetic never wraps and round-trips through text",
  "Adding, subtracting or summing amounts gives the exact mathematical result or reports overflow or underflow according to the operation's kind (checked, saturating; plain ones fail where overflow is checked), and converting to and from precision, invoice text and stored bytes is exact. Invoice text which is not an amount is refused.",
  ["inputs"], "all 64-bit values and all precisions",
  "Tests sample a few values.", ["invoice/src/amount.rs"], "Amount, Precision, CoinAmount")
p("V04", "Coin amounts print and parse their exact decimal value",
  "An amount with a decimal precision splits into whole and fractional parts that recombine to the same amount; its text form is the exact decimal number, and text that is not such a number, or whose fraction does not fit the precision, is refused.",
  ["inputs"], "all amounts, precisions and formats",
  "Tests sample a few values.", ["invoice/src/amount.rs"], "CoinAmount with/Display/FromStr, Amount::split/fract/rem/round")
p("V05", "Token fractions and allocations compute and print exactly",
  "Owned fractions of a token add and subtract exactly or report overflow, never exceeding the bounds of the type; token allocations print to text, encode to state and parse back identically, and malformed text is refused.",
  ["inputs"], "all indexes and fractions, all texts",
  "Tests sample a few values.", ["invoice/src/data.rs"], "TokenIndex, OwnedFraction, Allocation, NonFungible")
p("V06", "Asset descriptions take well-formed texts only and read back unchanged",
  "Tickers, articles, names, details, terms and media types are taken exactly when they are within their alphabets and lengths, and descriptions made of them read back unchanged from their encoding and from contract state. Tickers which differ in letter case only are the same in comparison, ordering and hashing.",
  ["inputs"], "all texts over classes of characters with lengths up to and beyond the limits, all precisions, all pairs of short tickers",
  "Tests make one or two descriptions of good texts.", ["src/stl/specs.rs", "src/stl/mime.rs", "src/stl/error.rs"], "AssetSpec, ContractSpec, ContractTerms, MediaType, Ticker, Article, Details constructors, StrictVal conversions, Ord and Hash")

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
