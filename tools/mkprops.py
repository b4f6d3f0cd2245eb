"""Writes /verif/properties.jsonl.  The statements live here."""
import json, os
B='sbclassifier/classifiers/basic.py'; ST='sbclassifier/classifiers/storage.py'
SP='sbclassifier/safepickle.py'; CD='sbclassifier/cdb.py'; SL='sbclassifier/classifiers/slurping.py'
CB='sbclassifier/corpora/base.py'; CC='sbclassifier/corpora/caches.py'; CF='sbclassifier/corpora/filesystem.py'
M='sbclassifier/message.py'; T='sbclassifier/tokenizer.py'; S='sbclassifier/strippers.py'
TR='sbclassifier/trainers.py'; D='sbclassifier/dnsutils.py'; IP='sbclassifier/iputils.py'
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mechanism],
        observe_at=list(observe),hook_needed=None)))

prop('C01','Training counts are exact',
 'After any sequence of trainings and of untrainings of messages that were trained, the classifier\'s spam (ham) message total is exactly the number of spam (ham) messages trained and not untrained, and every word\'s spam (ham) count is exactly the number of those messages that contain it, a message counting once however often it repeats the word. A word whose two counts are zero is not kept, and an operation changes the counts of no word outside its message. A token stream that raises an exception part way leaves the classifier unchanged.',
 ['histories','inputs'],'every finite history of train/untrain calls, every token stream (list, iterator, repeated tokens, str or bytes tokens)',
 'The tests train a handful of fixed word lists and look at a few counts; the claim is about every history and every word at once.',
 [B],[('_add_msg','%s: Classifier._add_msg'%B),('_remove_msg','%s: Classifier._remove_msg'%B),('learn/unlearn and their convenience forms','%s: Classifier.learn'%B)],
 [('wordinfo','word -> (spam count, ham count)','%s: Classifier.__init__'%B),('nspam, nham','message totals','%s: Classifier.__init__'%B)],['Classifier.nspam','Classifier.nham','Classifier.wordinfo'])
prop('C02','Untraining is the exact inverse of training',
 'Training a message and later untraining the same message with the same label, whatever was trained or untrained in between, leaves the same totals, the same set of known words and the same counts as if neither had happened, hence the same scores. Untraining from a class that has no trained messages is refused with an error that changes no total and no count.',
 ['histories','inputs'],'every consistent history, every message and label, every interleaving of other operations',
 'Tests undo a few fixed messages; an inverse must hold from every reachable state and for every message.',
 [B],[('_remove_msg','%s: Classifier._remove_msg'%B),('_add_msg','%s: Classifier._add_msg'%B)],
 [('wordinfo','word -> counts','%s: Classifier.__init__'%B)],['Classifier.unlearn'])
prop('C03','A spam score is always a number in [0, 1]',
 'For every state reached by training and by untraining trained messages, and for every finite token stream, scoring succeeds and returns a number in the closed interval from 0 to 1, with or without evidence. Every probability in the evidence lies strictly between 0 and 1. A message with no usable clue scores exactly 0.5.',
 ['inputs','histories'],'all counts up to 2^40 and all streams of tokens of one type (str or bytes)',
 'Range, domain errors (log of zero, division by zero) and underflow depend on numeric extremes no test samples.',
 [B],[('spamprob','%s: Classifier.spamprob'%B),('chi2Q','%s: chi2Q'%B),('probability','%s: Classifier.probability'%B)],(),['Classifier.spamprob'])
prop('C04','Word probabilities follow the current counts',
 'The probability used for a word is always (0.225 + n*r)/(0.45 + n), where n is the word\'s current spam count plus its current ham count and r is its spam ratio divided by the sum of its spam and ham ratios, a ratio being the count over the class\'s current message total (1 if the class has none). A word that is not known has probability 0.5. No probability computed before a later training, untraining or reload is ever used afterwards.',
 ['histories','inputs'],'every interleaving of scoring, training, untraining and loading; all counts',
 'The cache of probabilities makes the result depend on history; tests never score, train and score again.',
 [B,ST],[('probability and its cache','%s: Classifier.probability'%B),('cache reset in _add_msg, _remove_msg, __setstate__ and load','%s, %s'%(B,ST))],
 [('_probcache','(spam count, ham count) -> probability under the current totals','%s: Classifier.__init__'%B)],['Classifier.spamprob evidence','Classifier.probability'])
prop('C05','Scoring uses exactly the strongest clues',
 'The clues of a score are distinct tokens of the message whose probability is at least 0.1 away from 0.5, all of them if there are at most 150 and otherwise 150 such that no token left out is farther from 0.5 than one that is used. Every clue carries the probability of its own token. Score and evidence therefore do not depend on the order or repetition of tokens, except for which of equally strong tokens are kept at the limit of 150.',
 ['inputs','histories'],'every classifier state and stream of tokens of one type (str or bytes) without word pairs, below, at and above the limit of 150 clues',
 'No test has more than 150 clues or clues near the threshold.',
 [B],[('_getclues','%s: Classifier._getclues'%B),('_worddistanceget','%s: Classifier._worddistanceget'%B)],(),['Classifier.spamprob(evidence=True)'])
prop('C06','The score is the chi-squared combination of the clues',
 'With n >= 1 clues of probabilities p1..pn the score is (S - H + 1)/2 where S = 1 - Q(-2*sum(ln(1-pi)), 2n), H = 1 - Q(-2*sum(ln pi), 2n) and Q(x, 2n) is the chi-squared survival function min(1, exp(-x/2) * sum over i < n of (x/2)^i/i!), up to floating-point rounding, however small the products become. The evidence lists H and S first and then every clue with its probability in order of increasing probability, and asking for it does not change the score.',
 ['inputs'],'every list of clues',
 'The rescaling that avoids underflow is only reached by long extreme messages; the tests only compare with the cutoffs.',
 [B],[('spamprob','%s: Classifier.spamprob'%B),('chi2Q','%s: chi2Q'%B)],(),['Classifier.spamprob','chi2Q'])
prop('C07','Scoring never changes what was learned',
 'Scoring a message, with or without evidence, changes no message total and no word count, adds and removes no known word, and writes nothing to the database; scoring the same message again gives the same score. This holds for the in-memory and for the database-backed classifier.',
 ['inputs','histories'],'every state and token stream',
 'A frame condition over all words of all states cannot be sampled.',
 [B,ST],[('spamprob, _getclues, _worddistanceget','%s'%B),('ShelveClassifier._wordinfoget','%s: ShelveClassifier._wordinfoget'%ST)],(),['Classifier.wordinfo','ShelveClassifier.db'])
prop('C08','Pair training covers every token and adjacent pair',
 'A classifier that uses word pairs trains and untrains exactly the set made of each token of the message and of each pair of adjacent tokens, for a list as well as for a one-shot iterator, for empty and one-token messages, and for str and bytes tokens. The pair tokens formed in training are the ones looked up in scoring.',
 ['inputs'],'every finite token stream',
 'One test trains five distinct words and checks only a coarse score.',
 [B],[('_enhance_wordstream','%s: Classifier._enhance_wordstream'%B),('bigram','%s: bigram'%B),('_getclues','%s: Classifier._getclues'%B)],(),['Classifier.learn with use_bigrams=True'])
prop('C09','Pair scoring tiles the message without overlap',
 'With word pairs in use, no token position of the message contributes to more than one clue of a score, no clue occurs twice, at most 150 are used, and each is a token or an adjacent pair of the message at least 0.1 away from 0.5. Clues are taken strongest first, so a candidate is left out only if it overlaps a clue that is at least as strong, repeats a token or pair, or is beyond the limit.',
 ['inputs','histories'],'every state and token stream',
 'Overlap shows only for particular relative strengths of neighbouring tokens.',
 [B],[('_getclues','%s: Classifier._getclues'%B)],(),['Classifier.spamprob(evidence=True) with use_bigrams=True'])
prop('C10','The database classifier behaves as the in-memory one',
 'After any history of training, untraining, scoring and storing, the classifier backed by a database file has the same message totals, the same known words with the same counts, and gives the same scores as an in-memory classifier with the same history. This holds for every word, str or bytes, including words that look like the keys the database uses itself.',
 ['histories','inputs'],'every history of learn/unlearn/spamprob/store, every word',
 'Its write-back cache treats words seen once, changed words and deleted words differently; bugs need particular sequences of counts crossing one.',
 [ST],[('_wordinfoget/_wordinfoset/_wordinfodel','%s: ShelveClassifier'%ST),('_db_key','%s: _db_key'%ST)],
 [('wordinfo, changed_words, deleted_words, db','write-back cache over the shelf','%s: ShelveClassifier.load'%ST)],['ShelveClassifier._wordinfoget','ShelveClassifier.spamprob'])
prop('C11','What a database classifier stores it finds again',
 'After the database-backed classifier is stored and closed, opening the same file, or loading it again, gives the same message totals and for every word the same counts, including words whose counts dropped to zero, which stay unknown. Totals and words are kept apart in the file: no word can read, overwrite or remove another word\'s counts or the totals.',
 ['histories','inputs'],'every history followed by store and reopen, every word',
 'The tests store and reopen three words.',
 [ST],[('store','%s: ShelveClassifier.store'%ST),('load','%s: ShelveClassifier.load'%ST),('_write_state_key','%s'%ST)],
 [('db','shelf','%s'%ST)],['ShelveClassifier'])
prop('C12','What a pickled classifier stores it finds again',
 'Storing a pickle-backed classifier and opening the same file, or loading it again, gives exactly the stored totals, words and counts, and a classifier opened on a file that does not exist is empty. Data written by another format version is refused with an error. Nothing computed before a load is used after it.',
 ['histories','inputs'],'every state, every sequence of store and load',
 'One test reloads five words, and never with a classifier already in use.',
 [ST,SP,B],[('PickleClassifier.load/store','%s: PickleClassifier'%ST),('pickle_read/pickle_write','%s'%SP),('__getstate__/__setstate__','%s: Classifier'%B)],(),['PickleClassifier'])
prop('C13','Storing a pickle is atomic',
 'If storing a pickle is interrupted or fails at any point, the target file afterwards holds either the complete previous content or the complete new content, never a mixture and never nothing if it existed before. The target is read and replaced only while its lock is held, and the lock is released whatever happens.',
 ['crash_points','fault_sequences','inputs'],'every point between two file-system operations of a store, every exception raised by one of them or by the object being stored',
 'No test injects a failure.',
 [SP],[('pickle_write','%s: pickle_write'%SP),('pickle_read','%s: pickle_read'%SP)],(),['pickle_write','pickle_read'])
prop('C14','A load that fails never empties the classifier',
 'If the file of a pickle-backed classifier exists but cannot be read completely (locked, damaged, unreadable, of another version), loading raises an error and the totals, words and counts in memory stay as they were. Only a missing file makes the classifier empty.',
 ['fault_sequences','inputs'],'every exception the reading of the file can raise',
 'No test loads a damaged or locked file.',
 [ST,SP,B],[('PickleClassifier.load','%s: PickleClassifier.load'%ST),('__setstate__','%s: Classifier.__setstate__'%B)],(),['PickleClassifier.load'])
prop('C15','A CDB file gives back what was put in',
 'A CDB file made from any list of distinct keys with values (bytes or text) gives for each key exactly its value, the default (or KeyError) for every other key, and iterates over exactly the given pairs in order; making it, looking a key up and iterating come to an end. The CDB-backed classifier stored to such a file and opened again (or made to load it again, whatever it held) has the same totals, words and counts; with no file it is empty.',
 ['inputs'],'every finite set of items: colliding hashes, empty keys, non-ASCII keys',
 'The tests for CDB are skipped.',
 [CD,ST],[('cdb_make, cdb_hash','%s'%CD),('Cdb.findnext','%s'%CD),('CDBClassifier','%s'%ST)],(),['Cdb','CDBClassifier'])
prop('C16','A memory cache is bounded and first-in first-out',
 'A memory cache of limit N >= 1 never holds more than N entries after an operation; putting a new key when it is full removes exactly the key that was added first, replacing the value of a key that is there removes nothing and keeps its place, and removing a key removes only that one. At all times lookup, length, membership, keys, values and items agree on the entries and give the value put last.',
 ['histories','inputs'],'every history of put/get/pop, every limit including infinity',
 'The order list and the dictionary must agree after every history; tests use a few puts.',
 [CC],[('NaiveCache.put/pop','%s: NaiveCache'%CC)],
 [('_keys, data','keys in order of addition; key -> value','%s: NaiveCache.__init__'%CC)],['NaiveCache'])
prop('C17','A file corpus touches only its own message files',
 'Adding a message to a file corpus writes the bytes of that message to the file named by its ID in the corpus directory, and removing it deletes that file; neither touches any other file, in or outside the directory, and dropping messages from memory deletes no file. An ID that does not match the corpus\'s name filter or does not name a file directly in the directory is refused with an error before anything is written or remembered, and a message whose file cannot be written is not remembered.',
 ['inputs','histories'],'every ID (path separators, "..", empty, filter metacharacters), every history, every memory limit',
 'Tests use well-formed IDs and small caches.',
 [CC,CF,CB],[('FileCache.put/pop/_is_valid_key','%s: FileCache'%CC),('NaiveCache.put eviction','%s: NaiveCache.put'%CC)],(),['FileCorpus.add_message','FileCorpus.remove_message','the directory'])
prop('C18','A file corpus shows exactly the message files there are',
 'The length, iteration, keys and membership of a file corpus agree with the set of files in its directory that match its filter, whatever is in memory. Every message obtained from it has its file name as ID and, unless an object in memory was changed by the caller, the content of its file; an unknown ID raises KeyError or gives the default.',
 ['histories','inputs'],'every directory content, every history of additions, removals and evictions',
 'Tests check a few fixed directories.',
 [CC,CF,CB],[('FileCache.__len__/__iter__/__getitem__/get','%s: FileCache'%CC),('Corpus','%s: Corpus'%CB)],(),['FileCorpus'])
prop('C19','Corpus changes are announced exactly once',
 'Adding (removing) a message of a corpus sends the added (removed) notification exactly once, from this corpus and with this message, after the corpus was changed, and none if notification is switched off or the change fails. Reading a corpus sends nothing.',
 ['inputs','histories'],'every operation and message',
 'Tests count notifications of single operations.',
 [CB],[('add_message/remove_message','%s: Corpus'%CB)],(),['message_added','message_removed'])
prop('C20','Trainers train on addition and untrain on removal',
 'When a message is added to a corpus a trainer listens to, the classifier is trained exactly once with the tokens of that message and the trainer\'s label, and the message remembers being trained as that label; when one is removed, it is untrained exactly once with that label and remembers no training. Corpora a trainer does not listen to have no effect, and a failed untraining leaves the message\'s record as it was.',
 ['histories','inputs'],'every history of additions to and removals from several corpora with several trainers',
 'The test of the trainers is empty.',
 [TR,CB],[('Trainer.train/untrain and signal connections','%s: Trainer'%TR)],(),['Classifier counts','Message.is_trained'])
prop('C21','Classification follows the cutoffs',
 'A probability below 0.2 makes a message ham, above 0.9 spam, and otherwise (both cutoffs included) unsure; a given classification is taken as it is; anything else is refused with an error that leaves the classification unchanged. The classification returned is the one remembered.',
 ['inputs'],'every float and every other value',
 'Boundary values and the frame.',
 [M,'sbclassifier/classifiers/constants.py'],[('set_classification','%s: Message.set_classification'%M)],(),['Message.set_classification','Message.classification'])
prop('C22','The headers added tell the result',
 'After the result headers are added for a probability to a message that carries none, the message has one classification header naming the classification for that probability, a score header with the probability to the requested digits only if asked for, a level header of floor(10 * probability) stars only if asked for, an evidence header listing every clue within the cutoff only if asked for, and an ID header with the message\'s ID unless switched off. Recipient and subject are changed only for the classifications asked for, and no other header and no body changes.',
 ['inputs','configurations'],'every probability, list of clues and combination of options',
 'Tests cover single options.',
 [M],[('add_sb_headers','%s: Message.add_sb_headers'%M),('add_notations','%s: Message.add_notations'%M)],(),['Message headers'])
prop('C23','Removing the result headers undoes adding them',
 'For a message that has a recipient and a subject, plain text and not already carrying a notation, adding the result headers and notations and then removing them gives back exactly the original headers and body, for every combination of options. The recipient and subject options of the removal act on the recipient and subject respectively, at most one notation is removed from each, and a message without notations is not changed.',
 ['inputs','configurations'],'every recipient and subject text, classification and combination of options',
 'Tests remove notations from a few fixed subjects.',
 [M],[('add_notations','%s: Message.add_notations'%M),('remove_notations','%s: Message.remove_notations'%M),('remove_sb_headers','%s: Message.remove_sb_headers'%M)],(),['Message headers'])
prop('C24','A message ID is set once',
 'Once a message has an ID, no operation changes it: setting the same ID again does nothing and setting a different one raises an error. An ID is always a string that is not one of the reserved names; any other value is refused with an error that leaves the message as it was.',
 ['inputs','histories'],'every sequence of values, of any type',
 'Tests try a few values in one order.',
 [M],[('set_id','%s: Message.set_id'%M),('set_id_from_payload','%s'%M)],(),['Message.id'])
prop('C25','Every line end becomes CRLF and nothing else changes',
 'Normalising line ends replaces every CRLF, lone CR and lone LF by exactly one CRLF and leaves all other characters as they are and in place; doing it twice is the same as doing it once. A message rendered as a string has only CRLF line ends.',
 ['inputs'],'every string',
 'Mixtures of CR and LF, including at the ends, are too many to list.',
 [M],[('force_crlf','%s: force_crlf'%M),('as_string','%s: Message.as_string'%M)],(),['force_crlf','Message.as_string'])
prop('C26','Stripping removes whole sections and keeps all other text',
 'A stripper removes from a text exactly the sections that run from the start of a start mark to the end of the next end mark after it, scanning left to right; all other text is kept unchanged and in order, joined by the stripper\'s separator, and a start mark with no end mark removes nothing from there on. Tokens are produced exactly once for each start mark found, in order. The scan comes to an end, unless a section is empty.',
 ['inputs'],'every text, every pair of search functions',
 'Nested, repeated, adjacent and unclosed sections are not tested.',
 [S],[('Stripper.analyze','%s: Stripper.analyze'%S)],(),['Stripper.analyze'])
prop('C27','Every message can be tokenized into bytes tokens',
 'For every message made from any bytes or any text (without lone surrogates), with any headers, encodings and structure, tokenizing ends without an exception and every token is a bytes object. It does not change the message, and tokenizing an equal message again gives the same tokens in the same order for messages with at most one text part.',
 ['inputs'],'every sequence of bytes as a message, both header options',
 'The test of the tokenizer is empty; failures need particular encodings and header shapes.',
 [T,S],[('Tokenizer.__call__, tokenize_headers, tokenize_body','%s: Tokenizer'%T),('crack_content_xyz','%s'%S)],(),['tokenize'])
prop('C28','Words of the body become tokens by the length rule',
 'Tokenizing a piece of body text gives, in order, each whitespace-separated word of 3 to 12 bytes unchanged, nothing for a shorter word, and for each longer word either the name and address of an e-mail address (a word shorter than 40 with a dot and exactly one @) or a skip token with its first character and its length rounded down to a multiple of ten, followed, if it has bytes above 127, by the rounded percentage of such bytes.',
 ['inputs'],'every text',
 'No test tokenizes anything.',
 [T],[('tokenize_word','%s: tokenize_word'%T),('Tokenizer.tokenize_text','%s: Tokenizer.tokenize_text'%T)],(),['Tokenizer.tokenize_text','tokenize_word'])
prop('C29','DNS lookups leave the socket timeout as it was',
 'Whatever a name or address lookup does (succeeds, times out, fails with any error), the process-wide default socket timeout afterwards is the one from before, and during the lookup it is the lookup limit. A lookup that times out gives an empty result, and an address without a name gives an empty result.',
 ['fault_sequences','inputs'],'every outcome of the lookup, every previous timeout including none',
 'The test needs the network and looks up one name.',
 [D],[('timed','%s: timed'%D),('reverse_dns_lookup, dns_lookup','%s'%D)],(),['socket.getdefaulttimeout'])
prop('C30','IP clues name the enclosing networks',
 'For every IPv4 address the networks produced are, in order and one for each requested prefix length (8, 16, 24 and 32 if none is given), the network of that length that contains the address; each clue is the prefix, a colon and such a network.',
 ['inputs'],'every IPv4 address and list of prefix lengths',
 'Tests check one address with the default lengths.',
 [IP],[('subnets','%s: subnets'%IP),('gen_dotted_quad_clues','%s'%IP)],(),['subnets','gen_dotted_quad_clues'])
prop('C31','Expiry removes exactly the old messages',
 'When a check for expired messages is due, it removes from the corpus exactly the messages whose file is older than the age limit, without announcing them, and makes the next check due no later than the earliest moment at which a remaining message expires and no later than one age limit from now; before it is due a check does nothing.',
 ['histories','inputs'],'every set of file ages and age limit',
 'Tests of expiry fail or sleep; ages are not enumerable.',
 [CF],[('remove_expired_messages','%s: ExpiryFileCorpus.remove_expired_messages'%CF)],(),['ExpiryFileCorpus'])
prop('C32','Without URLs to follow the slurping classifier adds nothing',
 'When no URL was collected, the slurping classifier gives for every history the same totals, counts, scores and evidence as the plain classifier, and makes no network access.',
 ['histories','inputs'],'every history of training and scoring with no collected URL',
 'No test uses this class.',
 [SL],[('SlurpingClassifier.spamprob/learn/unlearn','%s: SlurpingClassifier'%SL)],(),['SlurpingClassifier'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
