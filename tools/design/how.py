HOW = {
'C01': """Abstract state: functions S(w), H(w) (messages of each class that contain w) and totals. Data invariant: wordinfo has w
iff S(w)+H(w) > 0, and its record holds exactly (S, H). Each public operation is proved from an arbitrary such state and an
arbitrary stream of tokens (any length, repetitions, list or one-shot iterator) to the state with S or H changed at the words
of the message only; induction over histories is then immediate. The stream may raise at any element: the state must be the old.""",
'C02': """The contracts of C01 for training and untraining compose: the lemma target states that the abstract state after
train, anything, untrain is that of anything alone; the two-step targets run the real code. Refusal is a postcondition.""",
'C03': """Rounded floating-point arithmetic (axioms above). probability() is strictly in (0,1) for all counts; the loop of
spamprob keeps both products in [1e-200·x, 1] by the rescaling, so log never sees 0; chi2Q is in [0,1]; the score in [0,1]. The
"no clue: exactly 0.5" case is an equation.""",
'C04': """The cache of probabilities is a data invariant: every entry equals the formula at the current counts and totals. Each
operation that writes counts must empty it (or keep it right); probability() is proved to return the formula.""",
'C05': """Contract of the clue selection over an arbitrary stream: ghost set of tokens seen, candidate list as multiset, sort and
slice as contracts; postconditions: all if at most 150, otherwise every omitted token is not farther than any used.""",
'C06': """Products and exponents are carried as an abstract logarithm sum; frexp/ldexp by their contract; the loop of chi2Q is the
partial sum with term i = (x/2)^i/i!; the result is equated with the definition.""",
'C07': """Frame conditions: after spamprob (all three forms of evidence, also when the stream raises) totals, counts and known words are
unchanged, and no write reaches the database (the contract of the shelf forbids it).""",
'C08': """The wordstream of pairs as a generator in lock step with a ghost stream: the set passed on is {t_i} and {pair(t_i, t_i+1)}; then the
contracts of C01 with that set. str, bytes, empty and one-token streams, lists and iterators.""",
'C09': """Positions are ghost values attached to candidates. Proved for _getclues of an arbitrary message: clues are candidates, pairwise
without common position, no repeats, at most 150, and each omitted candidate overlaps or repeats one at least as strong, or the limit
is reached. spamprob's evidence is those clues.""",
'C10': """Simulation: the shelf classifier (cache of records + database + set of changed words) represents an abstract state; every operation
is proved against the same contract as C01/C05/C07. Keys are an injective encoding of words ("keys of words": all texts and bytes, by
case on the prefix), disjoint from the state key.""",
'C11': """store() establishes "the file represents the abstract state"; opening and loading are proved from any such file; the contract of
shelve/dbm says that only close makes data durable. Words with two zero counts have no entry.""",
'C12': """Contracts of safe pickling on a symbolic file system; storing and opening are composed symbolically with the same record of the
words, for an arbitrary state, an arbitrary previous state, missing files and other versions.""",
'C13': """Every call that touches the file system may fail with three kinds of exception or be the last one that happens: at each such
point the obligation is that the target holds the old or the new content completely. Lock and content accesses are ghost
events: reading and replacing only under the lock, and released at every exit.""",
'C14': """load() with a read that raises any of 23 exception classes, and with files that hold something else: the state is unchanged and
an error leaves. Only the missing file empties.""",
'C15': """The CDB format as a specification: a symbolic file with a header of 256 (position, length) pairs, tables whose items say
(hash, position of a record), and records (lengths, key, value).  The reader is proved to find what a lookup of the format finds (a ghost
function names the first matching slot; the probing loop's invariant says that no earlier slot matches, also after lookups that left the
reader in any state); iteration gives each record in file order; `cdb_hash` is the format's hash by induction over the key; `cdb_make` is proved
to lay out the header, the tables and the records (counting lemmas give the place of each item).""",
'C16': """Cache as (order, map) with the invariant that they agree and len ≤ N; each operation is proved to give the successor state, and
every observer to give the view of it.""",
'C17': """Symbolic directory tree: adding, reading and removing an ID touch only directory/ID; IDs with separators, "..", "." or null are
refused with no effect.""",
'C18': """Listing, length, membership, iteration and lookup are proved to be functions of the directory state; the file system contract allows
links, directories and compressed files among the entries.""",
'C19': """Ghost log of sends. Every operation: exactly one notification of the right kind with the message, after the state change; none
if it fails.""",
'C20': """Contracts of blinker: receivers are called once. Trainer methods are proved to call the (contracted) classifier once with the right
label and to keep the mark on the message right.""",
'C21': """Decision by comparison of reals, NaN and infinities as separate cases.""",
'C22': """The headers of a message are a sequence of (name, text); texts made by formatting are uninterpreted functions of the values, so "the
header tells the result" is an equation between them.""",
'C23': """Adding and removing composed on symbolic messages (all combinations of notation order, class, To/Subject present, already
noted): the header sequence afterwards is the one before.""",
'C24': """Arbitrary object as argument by type; the state of the ID afterwards is stated for each; all other methods keep it.""",
'C25': """See the module text below.""",
'C26': """find_start and find_end are arbitrary functions with the contract of a compiled pattern. Ghost scan position; the pieces kept are
text[end_i : start_i+1], and the marks tokenized are exactly those found.""",
'C27': """See the module text below.""",
'C28': """Words are arbitrary texts in each length class; result tokens are equations, the number of high characters is counted by a loop
with an invariant; tokenize_text is the concatenation over text.split().""",
'C29': """The timeout is one ghost cell; all outcomes of the lookup.""",
'C30': """ipaddress by contract: net(address, length) uninterpreted except for containment and length.""",
'C31': """Ghost set of files with times; the loop removes exactly those older than the limit; next check ≤ min over the rest.""",
'C32': """The targets of C01, C03 (by contract) and C08 run on the slurping class; network calls have no contract, so reaching one is an error.""",
}
