"""Which harnesses decide which property, with the bounds of each tier.
h: harness entry; q/t: parameters of the quick/thorough tier; tq/tt: time budget (s) of each tier;
covers: points every run must reach; bounds: what is symbolic and how large ({0} = first parameter);
repeat: native repetitions when a violation depends on the random seeds of hash maps."""


def H(h, bounds, q=(), t=None, tq=120, tt=1500, covers=("end",), repeat=1):
    return dict(h="h_" + h, q=list(q), t=list(q if t is None else t), tq=tq, tt=tt, covers=list(covers), bounds=bounds, repeat=repeat)


PROPS = {
    "C01": [
        H("c01_plain", "2..{0} postings, any one of them elided, either sign, dd or d.dd, EUR/$/no commodity", q=[3], t=[4]),
        H("c01_wide", "3..{0} postings of one sign with 1-3 digits and 0-3 decimals, accounts repeated, first/middle/last elided", q=[10], t=[14]),
        H("c01_long", "two numbers of up to 17 digits and 12 decimals, the last {0} digits of one symbolic", q=[2], t=[4]),
        H("c01_cost", "1..{0} postings with per-unit or total costs and one elided", q=[2], t=[3]),
        H("c01_history", "{0} transactions one after another, each with an elided amount", q=[3], t=[4]),
        H("c01_zero", "1..3 amounts with zeros and sums that pass through zero, any one elided, one account or several"),
        H("c01_around", "headers, notes, line ends, transactions before and after"),
        H("c01_mixed", "a posting with a cost, one in the cost's commodity and an elided one in any order, symbolic price and amount"),
        H("c01_large", "{0} postings, the elided one at 4 places", q=[150], t=[400]),
        H("c01_meet", "inferred amounts in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C02": [
        H("c02_totals", "{0} transactions over nested accounts, totals of every account", q=[2], t=[3]),
        H("c02_text", "1..{0} transactions, the report's text", q=[2], t=[3]),
        H("c02_mixed", "{0} transactions in several commodities", q=[3], t=[4]),
        H("c02_cost", "postings with costs: totals in the posted commodity"),
        H("c02_order", "{0} accounts in any order of appearance", q=[3], t=[4]),
        H("c02_bare", "2..3 amounts with and without a commodity in one account and below it"),
        H("c02_wide", "{0} commodities over trees of up to 8 levels, 12 postings", q=[6], t=[8]),
        H("c02_large", "{0} postings: many siblings, commodities, levels or postings of one account", q=[80], t=[200]),
        H("c02_meet", "account totals in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
        H("c02_meet_text", "the report's text of a transaction that has any {0} of 21 features at once", q=[1], t=[2], tt=900),
    ],
    "C03": [
        H("c03_layout", "5 layouts of an amount x 4 symbols x 5 shapes of symbolic digits x indents, gaps and tails"),
        H("c03_account", "account names of {0}+2 symbolic characters", q=[6], t=[8]),
        H("c03_utf8", "account names and symbols in several scripts, symbolic digits"),
        H("c03_symbol", "symbols of 1..{0} symbolic characters", q=[7], t=[12]),
        H("c03_lot", "lot price and lot date with symbolic digits in all layouts"),
        H("c03_elided", "postings without amount and whatever follows the account"),
        H("c03_alone", "postings whose line ends after the account and blanks, names of {0}+2 symbolic characters", q=[6], t=[7]),
        H("c03_classes", "accounts, symbols and numbers of many classes of characters in all layouts"),
        H("c03_bytes", "letters of two to four bytes with any last byte at the ends of names and symbols"),
        H("c03_long", "accounts, symbols, indents, gaps, notes and trailing blanks of {0} characters", q=[9000], t=[20000]),
        H("c03_point", "numbers of 1..2 symbolic digits that end in a point, 5 layouts", covers=()),
        H("c03_meet", "postings in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C04": [
        H("c04_value", "up to {0} integer and {1} fraction digits, all symbolic", q=[8, 6], t=[10, 8]),
        H("c04_display", "display of numbers of {0} shapes of up to 5 symbolic digits", q=[8]),
        H("c04_long", "numbers of up to 28 digits, {0} of them symbolic", q=[2], t=[4]),
        H("c04_over", "numbers beyond 28 digits"),
        H("c04_compare", "comparison of two numbers with symbolic digits"),
        H("c04_print", "printed amounts read back"),
        H("c04_padded", "numbers with leading and trailing zeros"),
        H("c04_from", "numbers from and to integers"),
    ],
    "C05": [
        H("c05_linear", "sums, differences and negation of symbolic amounts"),
        H("c05_product", "products and quotients, {0} divisors", q=[10], t=[14]),
        H("c05_mixing", "amounts of different commodities are not added"),
        H("c05_balance", "a balance of {0} symbolic amounts in three commodities", q=[3], t=[4]),
        H("c05_order", "order and equality of amounts"),
        H("c05_long", "operands of up to 26 digits and results of up to 28, the last {0} digits symbolic", q=[2], t=[4]),
        H("c05_quantity", "arithmetic, order and sign of quantities, symbolic digits"),
    ],
    "C06": [
        H("c06_unit", "per-unit costs, symbolic price, {0} quantities, zeros included", q=[12]),
        H("c06_total", "total costs, symbolic total, {0} quantities", q=[8]),
        H("c06_layout", "layouts of amount and cost"),
        H("c06_many", "{0} priced postings", q=[3], t=[4]),
        H("c06_dates", "{0} transactions of different dates, the price known afterwards", q=[3], t=[4]),
        H("c06_exchange", "CommodityPool::exchange with symbolic amounts"),
        H("c06_basis", "cost basis with symbolic amounts"),
        H("c06_around", "headers, line ends, other postings and transactions around a posting with a cost"),
        H("c06_stated", "all amounts stated, one of them with a cost, further postings in any of 4 commodities"),
        H("c06_pairs", "{0} prices of 4 pairs on 2 days", q=[3], t=[4]),
        H("c06_scale", "prices of up to 16 digits, two of them symbolic, per unit and in total, 5 quantities of up to 16 decimals"),
        H("c06_large", "{0} priced postings in one transaction or many", q=[80], t=[150]),
        H("c06_repeat", "1..{0} days with a price, the last day once or twice more, symbolic price", q=[8], t=[20]),
        H("c06_meet", "prices of costs in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C07": [
        H("c07_two", "two postings of two commodities, {0} quantities, symbolic other side", q=[10]),
        H("c07_three", "three postings of two commodities"),
        H("c07_parts", "several postings of each commodity"),
        H("c07_none", "transactions that imply no exchange"),
        H("c07_between", "transactions before and after"),
        H("c07_zero", "zeros among the postings, in any place"),
        H("c07_more", "three commodities imply no exchange"),
        H("c07_around", "headers, line ends, layouts, notes and accounts around an exchange"),
        H("c07_series", "{0} exchanges on 3 days", q=[2], t=[3]),
        H("c07_wide", "exchanges of several postings on each side, symbolic digits"),
        H("c07_large", "{0} postings of each of two commodities", q=[60], t=[150]),
        H("c07_meet", "prices of exchanges in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C08": [
        H("c08_latest", "{0} prices of one pair at symbolic moments", q=[3], t=[4]),
        H("c08_graph", "all sets of known pairs among {0} commodities", q=[4], t=[4]),
        H("c08_chain", "chains of 2..{0}+1 links, symbolic prices at symbolic moments", q=[2], t=[3]),
        H("c08_links", "{0} prices on the links of a chain, any order", q=[4], t=[5]),
        H("c08_pure", "looking up prices changes nothing"),
        H("c08_detour", "0..3 direct prices, 0..2 over one other commodity, 0..2 over two others"),
        H("c08_many", "1..{0} prices of one pair in 4 orders", q=[12], t=[24]),
        H("c08_both", "{0} prices of 4 pairs, both directions, at symbolic moments", q=[3], t=[4]),
        H("c08_far", "{0} prices over two links at 12 moments, decades or fractions of a second apart", q=[3], t=[4]),
        H("c08_large", "{0} prices of one pair, a quarter as many commodities, chains of up to that length", q=[200], t=[400]),
    ],
    "C09": [
        H("c09_time", "symbolic time of day"),
        H("c09_value", "symbolic digits of the price"),
        H("c09_symbol", "symbols of up to {0} symbolic characters", q=[6], t=[9]),
        H("c09_date", "{0} years, symbolic digits of the day and month", q=[2], t=[4]),
        H("c09_series", "{0} directives one after another", q=[3], t=[4]),
        H("c09_pairs", "{0} directives over 5 pairs, both directions, 3 moments", q=[3], t=[4]),
        H("c09_long", "prices of up to 21 digits, the last 2 symbolic"),
        H("c09_bad", "dates and times that do not exist", covers=()),
        H("c09_shape", "dates with 4 symbolic characters out of digits and separators"),
        H("c09_text", "a directive between transactions, comments and other directives of a text, LF or CRLF"),
        H("c09_only", "lines that start with 1..{0} symbolic characters other than P", q=[2], t=[3], covers=()),
        H("c09_wide", "symbols and gaps of {0} characters", q=[3000], t=[9000]),
        H("c09_meet", "price directives in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C10": [
        H("c10_register", "{0} registrations of names of 1..{1} segments of a symbolic letter", q=[4, 3], t=[5, 3]),
        H("c10_lookup", "{0} registrations, then a lookup of any name of 1..{1} segments", q=[3, 3], t=[4, 3], covers=("end", "found", "not found", "below")),
        H("c10_chars", "two names of {0} symbolic characters", q=[8], t=[16]),
        H("c10_text", "{0} postings on 11 names", q=[3], t=[4]),
        H("c10_many", "{0} accounts, any lookup", q=[26]),
        H("c10_shapes", "two names of up to {0} characters out of a B blank colon", q=[6], t=[8]),
        H("c10_long", "names of 1..40 segments of up to {0} characters that differ at their end", q=[3000], t=[9000]),
        H("c10_asked", "trees of 1..{0} levels, 1..{1} children at any level, full names asked for at 3 moments and in 3 orders", q=[4, 6], t=[5, 12]),
    ],
    "C11": [
        H("c11_grow", "{0} texts read one after another", q=[16], t=[18]),
        H("c11_text", "{0} transactions of 2..9 postings in one text", q=[10], t=[14]),
        H("c11_ops", "{0} operations out of 6 kinds in any order", q=[4], t=[5]),
        H("c11_move", "{0} journals moved", q=[3], t=[6]),
        H("c11_fill", "0..{0} further accounts and 0..{1} further commodities", q=[15, 15], t=[25, 25]),
        H("c11_varied", "{0} transactions of 5 kinds in one text or several", q=[3], t=[4]),
        H("c11_large", "{0} transactions, nearly as many accounts and commodities", q=[120], t=[300]),
        H("c11_meet", "references in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C12": [
        H("c12_date", "{0} years, symbolic digits of month or day, date and auxiliary date", q=[2], t=[6], covers=("end", "read", "no such day")),
        H("c12_year", "symbolic year 1000..9999 on {0} days", q=[2], t=[3]),
        H("c12_payee", "payees of {0}+2 symbolic characters", q=[7], t=[10]),
        H("c12_note", "notes of {0}+2 symbolic characters", q=[30], t=[60]),
        H("c12_shape", "all combinations of parts, blanks and line ends"),
        H("c12_bad", "up to {0} lengths of a date with the last 4 characters symbolic", q=[3], t=[5], covers=("accepted",)),
        H("c12_both", "date and auxiliary date with symbolic month and day, equal ones included"),
        H("c12_many", "{0} transactions out of 6 forms of headers", q=[3], t=[4]),
        H("c12_datetime", "dates and times on their own, symbolic digits", covers=("end", "read")),
        H("c12_long", "payees and notes of {0} characters", q=[9000], t=[20000]),
        H("c12_after", "1..{0} symbolic characters right after a date or auxiliary date", q=[2], t=[3], covers=()),
        H("c12_meet", "headers in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C13": [
        H("c13_blocks", "{0} blocks out of transactions, comments and blank lines in any order, LF or CRLF, with or without a final newline", q=[3], t=[4]),
        H("c13_comment", "comment lines of {0} symbolic characters", q=[12], t=[30]),
        H("c13_ends", "separators of two transactions and ends of the text"),
        H("c13_empty", "up to {0} lines without a transaction", q=[4], t=[6]),
        H("c13_adjacent", "transactions without a blank line between them", covers=()),
        H("c13_many", "2..{0} transactions", q=[12], t=[17]),
        H("c13_varied", "{0} transactions of 5 kinds: repeated lines, zero sums, dates in any order", q=[2], t=[3]),
        H("c13_names", "account names that begin with unusual characters", q=[4], t=[6]),
        H("c13_long", "lines of up to 300 characters, 5 parts of a text, LF or CRLF, with or without a final newline"),
        H("c13_large", "{0} transactions, or postings of one transaction", q=[150], t=[300]),
        H("c13_faulty", "12 forms of unreadable postings with 2 symbolic digits at any place of 1..3, 3 endings", covers=("accepted",)),
        H("c13_meet", "transactions read in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C14": [
        H("c14_place", "a transaction of {0} postings, a note of up to {1}+2 symbolic characters on any of them", q=[3, 5], t=[5, 10]),
        H("c14_many", "notes in {0} transactions", q=[3], t=[4]),
        H("c14_forms", "forms of note lines, LF and CRLF"),
        H("c14_posts", "notes and empty note lines after postings of 6 forms"),
        H("c14_wide", "a transaction of {0} postings, a note on any of them, equal or different texts", q=[5], t=[8]),
        H("c14_long", "a note of {0} characters", q=[9000], t=[20000]),
        H("c14_large", "{0} postings with notes", q=[100], t=[300]),
        H("c14_meet", "notes in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C15": [
        H("c15_texts", "{0} texts out of 6, symbolic digits", q=[3], t=[5]),
        H("c15_files", "{0} files out of 6, with or without final newline", q=[2], t=[3]),
        H("c15_include", "an include between two texts, nested or not"),
        H("c15_again", "two includes of {0} texts with blanks and comments around", q=[3], t=[6]),
        H("c15_big", "a file of more than {0} bytes, the border of the buffer on any of {1} places", q=[8192, 60], t=[8192, 75]),
        H("c15_missing", "files that do not exist", covers=()),
        H("c15_path", "12 forms of paths in an include, in a text or a file, with files of similar names around"),
        H("c15_lines", "LF and CRLF in files and included files"),
        H("c15_lost", "includes of files that do not exist", covers=()),
        H("c15_portions", "a source that hands out its bytes in portions, cut at any of {0} places, with interruptions", q=[8]),
        H("c15_count", "the number of transactions told, {0} texts", q=[3]),
        H("c15_broken", "a source that breaks off at any place, or with any byte beyond ASCII at any place", covers=()),
        H("c15_deep", "includes nested {0} levels deep", q=[20], t=[60]),
        H("c15_large", "a text or file of {0} bytes", q=[300000], t=[2000000]),
        H("c15_meet", "sources in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C16": [
        H("c16_order", "0..3 file options and a command in any order"),
        H("c16_string", "command strings with quoted and unquoted names"),
        H("c16_letters", "two option letters in one argument"),
        H("c16_name", "file names of {0}+2 characters, any printable one at each place", q=[2], t=[3]),
        H("c16_refuse", "arguments that are not understood", covers=()),
        H("c16_content", "{0} files on 8 account names, reports compared with the files' contents", q=[2], t=[3]),
        H("c16_shared", "1..{0} files of different commodities on the same accounts, any order", q=[4], t=[5]),
        H("c16_large", "{0} file options, different files or the same", q=[30], t=[80]),
        H("c16_paths", "14 forms of paths and names, 2 commands in 4 orders, with files of similar names around"),
        H("c16_meet", "reports in a transaction that has any {0} of 21 features at once", q=[1], t=[2], tt=900),
    ],
    "C17": [
        H("c17_pool", "{0} operations on symbols of 1..{1} symbolic characters", q=[5, 2], t=[6, 2]),
        H("c17_text", "{0} transactions with symbolic symbols in 4 layouts", q=[3], t=[4]),
        H("c17_lots", "{0} postings with lots and costs", q=[3], t=[5]),
        H("c17_amounts", "amounts read on their own, symbolic symbol and digits"),
        H("c17_create", "{0} commodities created or found", q=[4], t=[6]),
        H("c17_keep", "{0} operations out of 8 after a first text; identity, index and price kept", q=[3], t=[4]),
        H("c17_alike", "two symbols of up to {0}+1 characters that differ in one place", q=[7], t=[8]),
        H("c17_affix", "a symbol and the same with {0} symbolic characters before or after it, in either order", q=[4], t=[8]),
        H("c17_long", "two symbols of {0} characters that differ in one place", q=[3000], t=[9000]),
        H("c17_large", "{0} commodities", q=[150]),
        H("c17_meet", "commodities in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C18": [
        H("c18_accounts", "{0} sibling accounts, every new key in any of {1} hash slots", q=[3, 3], t=[3, 4], repeat=40),
        H("c18_commodities", "{0} commodities, every new key in any of {1} hash slots", q=[3, 3], t=[4, 4], repeat=40),
        H("c18_exchange", "{0} transactions with exchanges or costs, every new key in any of {1} hash slots", q=[1, 3], t=[2, 3], repeat=40),
        H("c18_prices", "{0} prices among 4 commodities, every new key in any of {1} hash slots", q=[2, 3], t=[3, 3], covers=("end", "price"), repeat=40),
    ],
    "C19": [
        H("c19_post", "amounts of 1..{0} characters out of digits - . , in 5 layouts", q=[5], t=[7], covers=("accepted",)),
        H("c19_cost", "costs of 1..{0} characters out of digits - . , in 4 layouts", q=[4], t=[5], covers=("accepted",)),
        H("c19_quantity", "numbers of 1..{0} characters out of digits - . , + e x", q=[5], t=[7], covers=("read", "refused")),
        H("c19_amount", "amounts on their own of 1..{0} characters", q=[5], t=[6], covers=("read", "refused")),
        H("c19_none", "amounts of 1..{0} characters without a digit", q=[5], t=[7], covers=()),
        H("c19_price", "prices of 1..{0} characters", q=[5], t=[6], covers=("read",)),
        H("c19_parts", "two numbers in 4 places of an amount, the second of up to {0}+1 characters", q=[3], t=[4], covers=()),
        H("c19_rest", "1..{0} further characters after 13 forms of amounts", q=[4], t=[6], covers=()),
        H("c19_lot", "lot prices of 1..{0} characters out of digits - . , in 4 layouts", q=[4], t=[5], covers=("accepted",)),
    ],
    "C20": [
        H("c20_lot", "lot prices in all layouts, symbolic digits, with or without date and cost, {0} quantities", q=[3], t=[6]),
        H("c20_none", "commodities without a lot price after 6 forms of postings, symbolic cost"),
        H("c20_first", "{0} postings with and without lots in two commodities, one text or several", q=[3], t=[4]),
        H("c20_apart", "amounts, costs and prices of postings with and without lots, symbolic digits"),
        H("c20_trade", "exchanges of 3 amounts at symbolic costs and of symbolic amounts at 3 costs, zero included, 3 commodities of the cost, one with a lot of its own"),
        H("c20_meet", "lots in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C21": [
        H("c21_text", "texts of 1..{0} symbolic characters out of 15", q=[6], t=[8], covers=("accepted", "end")),
        H("c21_header", "0..{0} symbolic characters after the date", q=[6], t=[8], covers=("accepted", "end")),
        H("c21_post", "a posting line of 1..{0} symbolic characters out of 18", q=[5], t=[6], covers=("accepted", "end")),
        H("c21_amount", "1..{0} symbolic characters in the place of the amount", q=[5], t=[6], covers=("accepted", "end")),
        H("c21_tail", "1..{0} symbolic characters after the amount", q=[4], t=[6], covers=("accepted", "end")),
        H("c21_next", "1..{0} symbolic characters after a transaction", q=[6], t=[8], covers=("accepted", "end")),
        H("c21_utf8", "10 unusual characters in 9 places", covers=("accepted", "end")),
        H("c21_lot", "0..{0} symbolic characters after the beginning of a lot or cost", q=[4], t=[6], covers=("accepted", "end")),
        H("c21_bytes", "letters of two to four bytes with any last byte in 8 places", covers=("accepted", "end")),
        H("c21_many", "1..{0} postings, each elided or in one of 4 forms", q=[5], t=[6], covers=("accepted", "end")),
    ],
    "C22": [
        H("c22_build", "{0} transactions of 8 forms, built in 3 orders of calls", q=[2], t=[3]),
        H("c22_many", "1..{0} transactions, read and built in turn", q=[9], t=[17]),
        H("c22_header", "dates, payees and notes of built transactions"),
        H("c22_posts", "built transactions of up to {0} postings", q=[6], t=[9]),
        H("c22_parts", "amounts from their parts, symbolic digits"),
        H("c22_meet", "built transactions in a transaction that has any {0} of 21 features at once", q=[2], t=[3], tt=900),
    ],
    "C23": [
        H("c23_program", "8 names of the program, 5 commands in 5 orders of the arguments, symbolic digits in the files"),
        H("c23_many", "1..{0} files, different ones or the same, the command first or last", q=[30], t=[80]),
    ],
}
