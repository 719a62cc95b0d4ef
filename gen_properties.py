#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is easy to edit and always valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, id
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": None}})
def m(*a):
    return [{"name": x, "where": y} for x, y in a]

p("C01", "Reading journals and reporting has no side effects outside the process",
  "Whatever the command line and the journals contain, the only files the library opens are the ones named by the caller (the -f options or the path given to the parse function) and by include directives, and it opens them only for reading. It never creates, changes or deletes a file, starts a process, uses the network or changes the environment.",
  ["inputs", "configurations"], "every command line, every journal text, every include graph",
  "Tests only look at returned reports; they do not observe the file system, and cannot enumerate the inputs on which an extra effect could be triggered.",
  ["src/lib.rs", "src/parser.rs", "src/main.rs"],
  m(("parse_file is the only opener", "src/lib.rs parse_file"), ("include_directive builds the path from the directive's argument", "src/parser.rs include_directive")),
  ["system calls of a run"])
p("C02", "Quantities are exact decimals from journal text to report",
  "A quantity written in a journal is parsed as the exact decimal it denotes or rejected, and posting amounts, sums and reported balances are never rounded, truncated, rescaled to fewer digits, or passed through floating point. The report prints every digit of the sum.",
  ["inputs"], "every decimal quantity text and every set of postings",
  "Tests use a handful of short quantities (20, 25.86, ...), on which rounding or float conversion is invisible.",
  ["src/amount.rs", "src/parser.rs", "src/report.rs", "src/balance.rs", "src/annotate.rs", "src/pool.rs"],
  m(("Quantity::from_str uses Decimal::from_str_exact", "src/amount.rs"), ("Display for Quantity prints the whole decimal", "src/amount.rs"), ("posting amounts are never divided", "src/xact.rs finalize")),
  ["Post.amount, Post.cost", "report lines"])
p("C03", "Amounts of different commodities are never merged",
  "Two amounts are added or subtracted only if they are in the same commodity (or both have none); a sum of amounts in several commodities keeps one separate entry per commodity. An operation that would mix commodities is refused.",
  ["inputs", "histories"], "all pairs of amounts and all sequences of additions to a balance",
  "Tests add a few EUR/USD amounts; a missing comparison on one operator or one path is not reached by them.",
  ["src/amount.rs", "src/balance.rs", "src/account.rs", "src/report.rs", "src/xact.rs"],
  m(("commodity comparison before every quantity addition/subtraction", "src/amount.rs Add, AddAssign, SubAssign, add"), ("Balance selects the entry of the same commodity or appends", "src/balance.rs")),
  ["Balance.amounts", "report lines"])
p("C04", "An omitted amount becomes the exact negation of the rest of its transaction",
  "When one posting of a transaction has no amount, it receives exactly the negated sum of the other postings of that transaction, where a posting with a cost counts with its cost and any other posting with its amount, each exactly once. Amounts written in the journal are never changed by this.",
  ["inputs"], "every transaction with one posting without amount, any number and sign of other postings, with or without costs",
  "Tests have two-posting transactions with positive amounts; sign, cost and many-posting cases are sampled at most once.",
  ["src/xact.rs", "src/amount.rs", "src/balance.rs", "src/parser.rs"],
  m(("finalize sums cost or amount of each posting and stores the inverse in the null posting", "src/xact.rs finalize"), ("Amount::inverse", "src/amount.rs"), ("Balance::add", "src/balance.rs")),
  ["Post.amount after parsing"], [{"name": "null_post", "meaning": "the posting without amount", "where": "src/xact.rs finalize"}])
p("C05", "An account's balance is the sum of its own and all its sub-accounts' postings",
  "Every parsed posting is attached to the account it names and to its transaction exactly once, and the balance of an account adds every posting attached to it and to each of its descendants exactly once, with its sign. No posting, sub-account or commodity is left out or counted twice.",
  ["inputs", "histories"], "every journal and account tree",
  "Tests use trees with two levels and at most two postings per account.",
  ["src/account.rs", "src/balance.rs", "src/parser.rs", "src/xact.rs"],
  m(("Account::amount sums the linked posts", "src/account.rs"), ("Account::total adds own amount and totals of all children", "src/account.rs"), ("parse_post links the post once to its account and transaction", "src/parser.rs")),
  ["Account::total()", "Account::amount()", "balance report"])
p("C06", "Reports list every account exactly once with its full balance",
  "The balance report has exactly one line for the root and for each account, giving the account's full name and every commodity entry of its balance with quantity and symbol; the accounts report lists every account exactly once. Nothing is filtered, merged, truncated or duplicated.",
  ["inputs"], "every account tree and balance",
  "Tests compare the output for a few small journals.",
  ["src/report.rs", "src/account.rs", "src/lib.rs"],
  m(("get_children_lines pushes one line per account and recurses into every child", "src/report.rs"), ("flatten visits every child", "src/account.rs"), ("execute_command only sorts the accounts report", "src/lib.rs")),
  ["returned lines of run()/run_command()"])
p("C07", "The same input always gives the same output",
  "For the same command line and files, the reported lines and their order are identical on every run and machine: the result does not depend on hash-map iteration order, memory addresses, the clock, randomness, threads or the environment.",
  ["inputs", "schedules", "configurations"], "all journals; all hash seeds, addresses, dates on which the command runs",
  "A test run sees one hash seed, one address layout and one date.",
  ["src/account.rs", "src/report.rs", "src/pool.rs", "src/history.rs", "src/lib.rs"],
  m(("child names are sorted before use", "src/report.rs get_children_lines, src/account.rs total/flatten"), ("accounts report is sorted", "src/lib.rs execute_command")),
  ["returned lines of run()"])
p("C08", "One account per full name, at the place the name says",
  "Each distinct colon-separated account name denotes exactly one account, reached through one sub-account per name part with exactly that part as its name (no case folding, trimming or other change), whose parent is the account for the preceding parts and whose full name is the non-empty parts joined by colons. (A colon at the end of a name is ignored.) Looking a name up finds that account or nothing, and never creates, replaces or removes an account.",
  ["inputs", "histories"], "every account name and every order in which names are registered and looked up",
  "Tests register a few two-part names in one order.",
  ["src/account.rs", "src/journal.rs"],
  m(("find_or_create descends by the part before the first colon", "src/account.rs"), ("create_account inserts only on a miss and sets the parent", "src/account.rs"), ("fullname joins the names up to the root", "src/account.rs")),
  ["Account::find_account, Journal::register_account, Account::fullname"])
p("C09", "One commodity per symbol",
  "Each distinct non-empty symbol text denotes exactly one commodity for the life of the journal, created on first use with exactly that symbol and never replaced or removed; equal symbols always give the same commodity, different symbols different ones, and an empty symbol none. Looking a symbol up never creates a commodity.",
  ["inputs", "histories"], "every sequence of symbols used in amounts, costs, lots and price directives",
  "Tests use three symbols in one order.",
  ["src/pool.rs", "src/parser.rs", "src/annotate.rs", "src/commodity.rs"],
  m(("find_or_create returns the existing entry of the exact key or creates one", "src/pool.rs"), ("create refuses an existing symbol", "src/pool.rs")),
  ["CommodityPool::find, find_or_create, find_index"])
p("C10", "Stored links always point to live objects",
  "The raw links between postings, transactions, accounts and commodities (and the price graph) stay valid however much the journal grows afterwards: linked objects live in storage that does not move them and are never removed, replaced or freed while the journal exists, and where a container does move its contents the links are renewed. A posting's transaction link always designates the transaction that owns it.",
  ["inputs", "histories"], "every sequence of parsed transactions, postings, accounts and commodities, of any length",
  "Moves happen only when a container grows past a capacity; small tests do not reach them, and use of freed memory often goes unnoticed.",
  ["src/account.rs", "src/journal.rs", "src/xact.rs", "src/post.rs", "src/pool.rs", "src/history.rs"],
  m(("Box-ed map values and posts", "src/account.rs, src/pool.rs, src/xact.rs"), ("add_xact renews the posts' links", "src/journal.rs"), ("create refuses to replace", "src/pool.rs")),
  ["dereferences of Post.account, Post.xact_ptr, Account.parent, Account.posts, Amount.commodity"])
p("C11", "A missing link is never followed",
  "Amounts may have no commodity, the root account has no parent and a transaction may have no posting without amount: such absent (null) links are tested before use on every path, so no null pointer is ever dereferenced or turned into a reference, whatever the journal contains.",
  ["inputs"], "every journal, in particular amounts, prices and costs without a commodity",
  "Tests of amounts without commodity exercise two or three of the operators; dereferencing null is undefined behaviour that a test may not notice.",
  ["src/amount.rs", "src/account.rs", "src/xact.rs", "src/commodity.rs", "src/history.rs", "src/pool.rs"],
  m(("get_commodity tests for null", "src/amount.rs"), ("fullname stops at the root", "src/account.rs"), ("null_post is tested", "src/xact.rs")),
  ["unsafe dereferences"])
p("C12", "Every line is read once, alone, and nothing is silently skipped",
  "A journal is read to the end of its input and each line is interpreted on its own, without leftovers of an earlier line. Only blank lines, comment lines (; # * |) and lines starting with '-' are ignored; every other line is either processed as a transaction, posting, note, include or price directive or makes the parse fail, and each transaction that is started is completed with all its postings. Journal::read returns the number of transactions that reading added.",
  ["inputs"], "every journal text: any order and number of directives, with or without final newline, LF or CRLF",
  "Tests use well-formed journals with few directives; a dropped or merged line needs a particular neighbouring line to show.",
  ["src/parser.rs", "src/lib.rs"],
  m(("Parser::parse reads until read_line returns 0 and clears the buffer", "src/parser.rs"), ("read_next_directive dispatches on the first character", "src/parser.rs"), ("xact_directive finalizes on every exit", "src/parser.rs")),
  ["Journal contents after parsing"])
p("C13", "Malformed or unreadable input is reported, never silently accepted",
  "A failure while opening or reading a file, a date, quantity or price that cannot be parsed, a missing include file, an unknown option or a missing option value always ends in an error (panic or Err); it is never ignored, replaced by a default value or turned into an absent amount.",
  ["inputs", "fault_sequences"], "every malformed input and every I/O error at any point",
  "Tests cover valid input; I/O errors are not injected at all.",
  ["src/lib.rs", "src/parser.rs", "src/amount.rs", "src/annotate.rs", "src/pool.rs", "src/option.rs"],
  m(("expect/unwrap/? on every fallible call", "src/parser.rs, src/annotate.rs, src/pool.rs"), ("panics in read loops", "src/parser.rs"), ("panic on unknown options", "src/option.rs")),
  ["outcome of run()/parse_text()/parse_file()"])
p("C14", "Transaction headers and notes are recorded as written",
  "The date, auxiliary date, payee and note of a transaction header end up, unchanged apart from surrounding whitespace, in the corresponding fields of the transaction (a missing one is recorded as absent, a missing payee as 'Unknown Payee'). Every note line is kept, appended to the posting above it or, before the first posting, to the transaction.",
  ["inputs"], "every header line and every sequence of note lines",
  "Tests use a few headers; combinations of optional parts and repeated notes are not covered.",
  ["src/scanner.rs", "src/xact.rs", "src/post.rs", "src/parser.rs"],
  m(("tokenize_xact_header", "src/scanner.rs"), ("Xact::create", "src/xact.rs"), ("parse_trailing_note, add_note", "src/parser.rs, src/xact.rs, src/post.rs")),
  ["Xact fields, Post.note"])
p("C15", "Postings are recorded as written",
  "The account name, quantity and commodity of a posting line, its lot price and date, and its cost end up in the corresponding fields: the amount is exactly the written quantity in the written commodity, the cost is the written total ('@@') or the written unit price times the posting's quantity ('@'), and a posting gets no amount only if none is written. A lot's price and date are recorded with the commodity, the first annotation of a commodity being kept; a unit cost written without symbol is in the posting's commodity. Separators, markers and text after the cost (such as a comment on the same line) are consumed; no other character is lost or moved to another field.",
  ["inputs"], "every posting line: number first or symbol first, with or without spaces, lots and costs",
  "Tests list about a dozen spellings out of the combinations of optional parts.",
  ["src/scanner.rs", "src/parser.rs", "src/post.rs", "src/annotate.rs"],
  m(("scan_post and the scanners it calls", "src/scanner.rs"), ("parse_post, parse_amount_parts, parse_cost", "src/parser.rs")),
  ["Post fields, annotations"])
p("C16", "Parsing and reporting always terminate",
  "For every finite input, reading a journal and producing a report come to an end: every loop makes progress towards its exit on each pass (consumes input, an element or a level of the account tree) and every recursion descends into a strictly smaller part. No division by a zero amount is attempted when costs are derived.",
  ["inputs"], "every finite journal, command line and account tree",
  "A hang needs an input for which one pass makes no progress; tests do not search for it.",
  ["src/parser.rs", "src/scanner.rs", "src/account.rs", "src/report.rs", "src/option.rs", "src/xact.rs", "src/pool.rs"],
  m(("read loops end at read_line == 0", "src/parser.rs"), ("scan loops shorten the rest", "src/scanner.rs"), ("tree recursion over children; walk over parents", "src/account.rs, src/report.rs"), ("is_zero tests before divisions", "src/xact.rs, src/pool.rs")),
  ["run() returns"])
p("C17", "Command-line arguments are honoured completely and in order",
  "Every -f option's file is read exactly once, in the order given, into one journal; the first non-option argument selects the report; the other arguments are kept with it in order, never taken for file names and never dropped by the argument processing. The command-line program passes on all its arguments except its own name and prints the whole result.",
  ["inputs", "configurations"], "every argument list",
  "Tests pass one or two files and one command.",
  ["src/option.rs", "src/lib.rs", "src/main.rs"],
  m(("process_arguments / get_input_options", "src/option.rs"), ("session_read_journal_files, execute_command", "src/lib.rs"), ("main", "src/main.rs")),
  ["run(), run_command(), the binary"])
p("C18", "Every price is recorded for the right pair, date and rate",
  "A price directive records, for its commodity at its date and time (midnight if none), exactly the written quantity of the written price commodity; a posting with a cost records the absolute cost per unit of its commodity at the transaction date (the absolute cost if the amount is zero; nothing if that is zero). Prices of other commodity pairs or other times are never changed.",
  ["inputs", "histories"], "every sequence of price directives and costed postings",
  "Tests record one or two prices.",
  ["src/pool.rs", "src/history.rs", "src/xact.rs", "src/scanner.rs", "src/parser.rs"],
  m(("parse_price_directive, exchange", "src/pool.rs"), ("CommodityHistory::add_price", "src/history.rs"), ("finalize", "src/xact.rs")),
  ["commodity_pool price history"])
p("C19", "A price lookup combines the latest recorded prices along a conversion path",
  "Looking up the price of one commodity in another gives the latest recorded price for the pair if there is a direct one, otherwise the product of the latest prices of all consecutive pairs of a conversion path, dated with the earliest of their dates; if there is no path the answer is none. A lookup never changes the recorded prices.",
  ["inputs", "histories"], "every price history and pair of commodities",
  "Tests look up two or three pairs.",
  ["src/history.rs"],
  m(("find_price, calculate_rate, get_direct_price, get_latest_price", "src/history.rs")),
  ["CommodityHistory::find_price"])
p("C20", "Amount arithmetic is the decimal arithmetic it names",
  "Adding, subtracting, multiplying and dividing quantities and amounts computes exactly that operation on the two decimals in that operand order; inverting flips the sign of every value, and the absolute value is never negative. Multiplication and division keep the left operand's commodity, or take the right one's if the left has none; addition, subtraction and inversion keep the common commodity.",
  ["inputs"], "every pair of quantities and commodities",
  "Tests apply each operator to one or two positive values.",
  ["src/amount.rs"],
  m(("operator impls of Quantity and Amount, inverse, invert, abs", "src/amount.rs")),
  ["public operators of Amount and Quantity"])
p("C21", "Unbalanced transactions are rejected",
  "A transaction in which every posting has an amount and the total is not zero (beyond the display precision of its commodities) is rejected.",
  ["inputs"], "every transaction without omitted amount",
  "Tests contain only balanced transactions.",
  ["src/xact.rs"], m(("finalize", "src/xact.rs")), ["outcome of parsing"])
p("C22", "No arithmetic overflow on any journal",
  "Sums, products and quotients of the quantities of a journal never overflow the 96-bit decimal.",
  ["inputs"], "every journal, quantities of any magnitude",
  "Tests use small quantities.",
  ["src/amount.rs"], m(("rust_decimal arithmetic", "src/amount.rs")), ["run() does not panic"])
p("C23", "Parsing in pieces equals parsing at once",
  "Parsing a journal text in several calls into the same journal (parse_text, parse_file or Journal::read), split between complete directives, leads to the same accounts, transactions, prices and reports as parsing it in one call. What a directive does depends only on its own lines and on the journal: the reader keeps nothing else from one directive, file or call to the next, treats the first and last directive of a source like any other, and changes nothing in the journal before the first or after the last one.",
  ["inputs", "histories"], "every text and every split of it between directives",
  "Tests parse each text in one call; hidden state shows only with particular texts, numbers of directives or calls.",
  ["src/parser.rs", "src/journal.rs", "src/lib.rs"], m(("Parser holds no state between directives", "src/parser.rs Parser, Parser::parse"), ("the entry points only start the reader", "src/lib.rs parse_text, parse_file; src/journal.rs read")), ["Journal contents"])
p("C24", "Parsing time is linear in the input",
  "Reading a journal takes time proportional to its length and reporting time proportional to the number of accounts and postings (times tree depth).",
  ["inputs"], "every journal size",
  "Tests are tiny.",
  ["src/parser.rs", "src/account.rs", "src/journal.rs"], m(("streaming line reader", "src/parser.rs")), ["run time"])
p("C25", "Costs are derived only for exchanges between two commodities",
  "When no posting of a transaction has a cost or an omitted amount and the amounts add up to non-zero totals in exactly two commodities, every posting in the first posting's commodity, and no other, gets as its cost its amount times the absolute ratio of the total in the other commodity to the total in its own commodity, in the other commodity. In every other transaction no cost is derived, and a cost given in the journal is never changed.",
  ["inputs"], "every transaction: any number of postings in any commodities and order, with or without costs, zero and negative amounts",
  "Tests have one exchange of two postings with positive first amount; a cost next to a third posting, a zero total or a posting order that swaps the commodities is never tried.",
  ["src/xact.rs"], m(("the two-commodity branch of finalize", "src/xact.rs")), ["costs of the postings after parsing"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write(
    "".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
