#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, from the data below.

usage: python3 tools/registry.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'sbclassifier/'
PROPERTIES = []
CHECKS = []
NOT_APPLICABLE = []
PENDING = 'The check of this property is not built yet.'


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), technique=None, level='exploration', note=''):
    anchors = dict(
        files=[P + f for f in files],
        mechanism=[dict(name=n, where=P + w) for n, w in mechanism])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=P + w)
                            for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = None
    PROPERTIES.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=anchors))
    if not os.path.exists(os.path.join(HERE, 'pbt', 'props',
                                       id.lower() + '.py')):
        NOT_APPLICABLE.append(dict(property=id, reason=PENDING))
        return
    CHECKS.append(dict(
        property=id, quick_cmd='bin/check %s quick' % id,
        thorough_cmd='bin/check %s thorough' % id,
        evidence_file='evidence/%s.json' % id, technique=technique,
        level=level, level_note=note))


BASIC = 'classifiers/basic.py'
STORAGE = 'classifiers/storage.py'

prop('C01', 'Training counts exactly the trained messages',
     'After any sequence of learning messages as spam or ham and unlearning '
     'messages learned before, the classifier reports exactly how many spam '
     'and ham messages are trained and, for each token, exactly how many of '
     'those spam and ham messages contain it. A token that is repeated '
     'within one message counts once, whatever kind of iterable the tokens '
     'come in, and a token that is in no trained message is unknown. A '
     'message whose tokens cannot be generated (the iterable raises an '
     'error) is neither learned nor unlearned in part: nothing changes. The '
     'tokens that were given are left as they are.',
     ['inputs', 'histories'],
     'every history of learn and unlearn operations, every token stream '
     '(str or bytes tokens, lists, sets, generators, repetitions)',
     'The tests learn one or two fixed messages; the counts must be exact '
     'after every history.',
     [BASIC], [('learn, unlearn', BASIC + ': Classifier._add_msg, '
                'Classifier._remove_msg')],
     [('token records', 'spam and ham counts of each token', BASIC +
       ': Classifier.wordinfo'),
      ('totals', 'number of trained messages', BASIC +
       ': Classifier.nspam, Classifier.nham')],
     technique='model-based testing of generated training histories against '
               'a counting model (Hypothesis)',
     note='Compared with an independent model after every step of each '
          'generated history.')

prop('C02', 'Unlearning undoes learning, and the training order is irrelevant',
     'Unlearning a message that was learned restores the counts and the '
     'scores from before, and two training histories that leave the same '
     'messages trained give the same counts and scores. An attempt to '
     'unlearn a message of a kind of which no message is trained is refused '
     'with an error and changes nothing, and tokens that are in no message of '
     'the kind make no difference when one is unlearned.',
     ['histories', 'inputs'],
     'every history, every permutation of it, every detour of learning and '
     'unlearning inserted into it',
     'It relates pairs of histories; the tests unlearn one message once.',
     [BASIC], [('inverse updates', BASIC + ': Classifier._remove_msg'),
               ('invalidation of remembered probabilities',
                BASIC + ': Classifier._add_msg, Classifier._remove_msg')],
     technique='metamorphic testing: permuted and detoured histories '
               '(Hypothesis)',
     note='Relations between generated histories; the states and the scores '
          'of both are compared.')

prop('C03', 'Scores follow the documented chi-squared combination',
     'The score of a message is in [0, 1] and is the documented '
     'chi-squared combination (S - H + 1) / 2 of the Bayesian-adjusted '
     'probabilities (prior 0.5 of strength 0.45) of its at most 150 '
     'strongest distinct clues at least 0.1 away from 0.5; without clues it '
     'is exactly 0.5. The reported evidence consists of the H and S measures '
     'and of the used clues with their probabilities in ascending order. '
     'Exchanging spam and ham in the training turns a score p into 1 - p. '
     'The chi-squared function itself is right for every even number of '
     'degrees of freedom, and refuses odd ones.',
     ['inputs', 'histories'],
     'every training and every message, including extremely unbalanced '
     'training and more clues than the maximum',
     'The tests compare scores of a handful of toy messages; numerical '
     'failures (underflow, rounding) and clue selection depend on the input.',
     [BASIC], [('clue probability', BASIC + ': Classifier.probability'),
               ('clue selection', BASIC + ': Classifier._getclues'),
               ('combination', BASIC + ': Classifier.spamprob, chi2Q')],
     technique='differential testing against an exact rational/log-space '
               'reference and the spam-ham symmetry (Hypothesis)',
     note='Ties between equally strong clues may be broken either way.')

prop('C04', 'Scoring is pure and depends only on the set of tokens',
     'Scoring a message never changes the training or the tokens given, and '
     'asking again, before '
     'or after other scores, gives the same score for the current training. '
     'The score depends only on the set of tokens: their order, repetition '
     'and the kind of iterable do not matter (without bigrams), and neither '
     'do added tokens that were never trained.',
     ['histories', 'inputs'],
     'every interleaving of scoring with learning and unlearning, every '
     'arrangement of the tokens',
     'A remembered probability that is not forgotten in time shows up only in '
     'histories that interleave scores and training.',
     [BASIC], [('remembered clue probabilities',
                BASIC + ': Classifier.probcache'),
               ('clue selection', BASIC + ': Classifier._getclues')],
     technique='stateful model-based and metamorphic testing (Hypothesis)',
     note='Compared with a reference and a classifier that never scored.')

prop('C05', 'Bigrams: adjacent pairs are trained, and clues do not overlap',
     'With bigrams enabled, each message trains its tokens and the pairs of '
     'adjacent tokens, each once per message, and unlearning removes exactly '
     'these. A score uses each occurrence position of the message in at most '
     'one clue, preferring the strongest clues, so that no clue is used '
     'twice and overlapping clues are not both used.',
     ['inputs', 'histories', 'configurations'],
     'every history and every message with bigrams enabled, with repeated '
     'tokens and pairs',
     'The selection of non-overlapping clues depends on the relative '
     'strengths of all clues of a message; the tests have one example.',
     [BASIC], [('pairs', BASIC + ': Classifier._enhance_wordstream, '
                'make_bigram'),
               ('tiling', BASIC + ': Classifier._getclues')],
     technique='model-based testing with a validity predicate on the chosen '
               'clues (Hypothesis)',
     note='The oracle accepts every choice between equally strong clues.')

prop('C06', 'A pickled classifier is what it was when last stored',
     'A classifier kept in a pickle file has, whenever it is opened or '
     'loaded, exactly the training (totals and token counts) and the scores '
     'of the moment it was last stored, and goes on to learn and unlearn '
     'from there; what was not stored is forgotten by loading. A classifier '
     'that its user pickles is restored complete, with its bigram setting, '
     'and independent of the original.',
     ['histories', 'inputs'],
     'every history of learning, unlearning, scoring, storing, loading, '
     'closing and reopening; every token and file name',
     'The tests store and load one tiny classifier once.',
     [STORAGE, BASIC, 'safepickle.py'],
     [('store and load', STORAGE + ': PickleClassifier'),
      ('pickled state', BASIC + ': Classifier.__getstate__, '
       'Classifier.__setstate__'),
      ('file access', 'safepickle.py: pickle_read, pickle_write')],
     technique='stateful model-based testing of storage histories '
               '(Hypothesis)',
     note='Current and stored state compared with a model after every step.')

prop('C07', 'A shelved classifier is what it was when last stored',
     'A classifier kept in a DBM file has, after storing and reopening or '
     'loading, exactly the training and the scores it had, including '
     'deletions of tokens that are no longer trained, for str and for bytes '
     'tokens. A training session that is abandoned without storing leaves a '
     'database that opens, reports consistent totals, and scores every '
     'message.',
     ['histories', 'crash_points', 'inputs'],
     'every history of training, scoring, storing, loading and reopening; '
     'every point at which a session is abandoned',
     'The write-back cache drops and resurrects records depending on the '
     'history (rare tokens are written at once, others later).',
     [STORAGE], [('write-back cache', STORAGE + ': ShelveClassifier'
                  '._wordinfoget, _wordinfoset, _wordinfodel, store')],
     [('changed words', 'tokens whose record is not written yet',
       STORAGE + ': ShelveClassifier.changed_words')],
     technique='stateful model-based testing of storage histories '
               '(Hypothesis)',
     note='Tokens of one database are either all str or all bytes.')

prop('C08', 'A CDB classifier is what it was when last stored',
     'A classifier kept in a constant database has, whenever it is opened or '
     'loaded, exactly the training and the scores of the moment it was last '
     'stored, for every str or bytes token, and what was not stored is '
     'forgotten by loading.',
     ['histories', 'inputs'],
     'every history of training, scoring, storing, loading and reopening; '
     'every token',
     'The tests store and load one tiny classifier once.',
     [STORAGE, 'cdb.py'],
     [('store and load', STORAGE + ': CDBClassifier'),
      ('file format', 'cdb.py: Cdb, cdb_make')],
     technique='stateful model-based testing of storage histories '
               '(Hypothesis)',
     note='Tokens of one database are either all str or all bytes.')

prop('C09', 'Constant databases follow the published file format',
     'A constant database built from a sequence of key and value pairs '
     'enumerates exactly these pairs in order, finds the first and then all '
     'further values of each key, and finds nothing for absent keys. The '
     'files are those of the published cdb format: an independent reader '
     'finds the same records, and files of an independent writer are read '
     'alike.',
     ['inputs'],
     'every sequence of pairs, including repeated keys, empty keys, keys '
     'that share a hash table or have equal hashes',
     'Collisions, wrap-around and repeated keys are only met by chance in '
     'the two examples of the tests.',
     ['cdb.py'], [('reader', 'cdb.py: Cdb'), ('writer', 'cdb.py: cdb_make'),
                  ('hash', 'cdb.py: cdb_hash')],
     technique='differential testing against an independent reader and '
               'writer of the format (Hypothesis)',
     note='The reference is written from the published description.')

TOK = 'tokenizer.py'
STRIP = 'strippers.py'
MSG = 'message.py'
SAFE = 'safepickle.py'
BASE = 'corpora/base.py'
CACHES = 'corpora/caches.py'
FS = 'corpora/filesystem.py'
TRAINERS = 'trainers.py'
IP = 'iputils.py'
DNS = 'dnsutils.py'
SLURP = 'classifiers/slurping.py'

prop('C10', 'A failed or killed store keeps the previous database',
     'If storing a pickle or constant database fails (an error, an '
     'interrupt, a full disk) or its process ends at any moment, the '
     'database that is opened next is completely the previous or completely '
     'the new one. After a failure the classifier can still be used and '
     'stored again, and no temporary file is left behind. A database that '
     'exists but cannot be read is never mistaken for a new, empty one. '
     'A store of a constant database changes only the content of the file: '
     'its permissions, and links to it, remain.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every file operation and every line of a store as the moment of an '
     'error, an interrupt or the end of the process; several sizes of a full '
     'disk; every old and new training; every truncation of a file',
     'The tests never interrupt a store.',
     [SAFE, STORAGE],
     [('replacement of the file', SAFE + ': pickle_write'),
      ('store of a constant database', STORAGE + ': CDBClassifier.store'),
      ('load', STORAGE + ': PickleClassifier.load, CDBClassifier.load')],
     technique='fault enumeration over generated stores: each one is '
               'repeated with a fault at every operation, and the result '
               'compared with the models of the old and the new database',
     level='fault_enumeration',
     note='Every file operation, and up to 60 lines, of each generated '
          'store; a killed process loses no data that was written.')

prop('C11', 'Pickle files are used under a lock, which is then released',
     'A pickle file is never read while another process or thread writes it, '
     'and two of them never write it at the same time: each waits until the '
     'lock of the file is free, and gives up with an error if it stays held. '
     'After each read or write, successful or not, the lock is free again.',
     ['schedules', 'histories', 'fault_sequences'],
     'every history of successful and failing reads, writes, stores and '
     'opens; several processes and threads at the same time',
     'The tests run in one thread and look at one successful round trip.',
     [SAFE], [('lock', SAFE + ': pickle_read, pickle_write')],
     technique='generated histories and schedules with a competing lock '
               'holder (Hypothesis)',
     note='Schedules are sampled, not enumerated.')

prop('C12', 'Every message can be tokenized, always in the same way',
     'Any message, however malformed, and any text can be tokenized without '
     'an error, and every token is a byte string that a classifier can be '
     'trained and scored with. Tokenizing does not modify the message, and '
     'gives the same tokens in the same order each time, whatever was '
     'tokenized before or is being tokenized at the same time.',
     ['inputs', 'histories'],
     'every byte string read as a message; every text',
     'The tests tokenize a handful of well-formed messages.',
     [TOK, STRIP],
     [('conversion to bytes', TOK + ': convert_to_bytes'),
      ('headers', TOK + ': Tokenizer.tokenize_headers'),
      ('bodies', TOK + ': Tokenizer.tokenize_body, payload_bytes'),
      ('names and character sets', STRIP + ': crack_content_xyz')],
     technique='fuzzing with structured and arbitrary messages against '
               'invariants and metamorphic relations (Hypothesis)',
     note='Surrogates in text are those of undecodable bytes.')

prop('C13', 'The words of every text part become its tokens',
     'The words of a message are the words of all of its text parts, in '
     'order, separated by white space, in lower case and decoded from their '
     'transfer encoding, wherever in a multipart message they are. A word of '
     '3 to 12 characters is its own token; a longer one is split into the '
     'pieces of an email address or counted by its first letter, its length '
     'rounded down to a multiple of ten and its share of 8-bit characters; '
     'a shorter one is none. Parts that are not text contribute no words.',
     ['inputs'],
     'every structure of nested parts, every type, character set and '
     'transfer encoding, every sequence of words',
     'The tests check the rules for single words, not for messages.',
     [TOK],
     [('words', TOK + ': tokenize_word, Tokenizer.tokenize_text'),
      ('parts', TOK + ': textparts, Tokenizer.tokenize_body')],
     technique='differential testing of generated messages against an '
               'independent tokenizer of the documented rules (Hypothesis)',
     note='Exact token sets; texts without markup and URLs.')

prop('C14', 'Headers become the documented tagged tokens',
     'The headers of a message become exactly the documented tokens, each '
     'tagged with its header: the words, punctuation and case of the '
     'Subject, the names and the parts of the addresses of address headers '
     'and the number of recipients, the mailer, the domain of the Message-ID '
     'and the number of lines of each other header that is counted. '
     'Encoded words, folding and header-name case make no difference, and '
     'headers that are left out by default contribute nothing. Each part '
     'contributes its type, character set, disposition, encoding and the '
     'pieces of its file name.',
     ['inputs'],
     'every combination of well-formed headers, of character sets and '
     'encodings of their texts, of addresses, and of parts',
     'The tests look at two headers of fixed messages.',
     [TOK, STRIP],
     [('headers', TOK + ': Tokenizer.tokenize_headers, decode_chunk'),
      ('parts', STRIP + ': crack_content_xyz, crack_filename')],
     technique='differential testing of generated headers against an '
               'independent tokenizer of the documented rules (Hypothesis)',
     note='Exact token sets; default options.')

prop('C15', 'Markup and encodings do not disguise the words of a message',
     'A message has the same word tokens whether or not HTML tags, comments, '
     'style sheets and noframes sections are put into and between its words, '
     'letters are written as numeric entities or in the other case, and '
     'white space as breaking tags or entities. (An entity of no character '
     'reads as a question mark.) The text inside comments, styles and '
     'noframes sections is no word, and of the markup only embedded URLs and '
     'the documented signs of viruses become tokens.',
     ['inputs'],
     'every text and every disguise of it',
     'The tests have one example of each kind of markup, if any.',
     [TOK, STRIP],
     [('entities', TOK + ': numeric_entity_re, breaking_entity_re'),
      ('tags', TOK + ': html_re'),
      ('signs of viruses', TOK + ': find_html_virus_clues'),
      ('sections', STRIP + ': StyleStripper, CommentStripper, '
       'NoframesStripper')],
     technique='metamorphic testing: tokens of generated texts with and '
               'without disguise (Hypothesis)',
     note='Tags of up to 256 characters; sections that end.')

prop('C16', 'URLs, uuencoded files and stripped sections are set apart',
     'Each URL and each uuencoded file in a text becomes exactly its own '
     'documented tokens (protocol and pieces of the URL, name and sizes of '
     'the file) and contributes no words, while the text around it keeps its '
     'words and their order. A URL is also found in tags, comments and other '
     'sections that are removed. A section that begins but never ends removes '
     'no text. With the options to pick URLs apart and to recognize bare host '
     'names, exactly the documented tokens are added.',
     ['inputs', 'configurations'],
     'every text with any number of such sections at any place; every '
     'stripper of sections between a start and an end',
     'The tests have a few fixed URLs and sections.',
     [STRIP, TOK],
     [('sections', STRIP + ': Stripper.analyze'),
      ('URLs', STRIP + ': URLStripper, url_re, url_fancy_re'),
      ('uuencoded files', STRIP + ': UUencodeStripper')],
     technique='differential testing of generated texts against a model of '
               'their sections (Hypothesis)',
     note='Whether a section without end is worth tokens is left open.')

prop('C17', 'Annotations say what was computed, and can be removed again',
     'The headers added to a message say its classification and, as '
     'configured, its probability, level, evidence and identifier, and '
     'notations of To and Subject say the classification, also after the '
     'message is written and read. Annotating changes nothing else, and '
     'removing the headers and notations restores the message, including '
     'encoded and non-ASCII headers and headers that did not exist. Only the '
     'notations that are asked for are removed. The evidence is folded into '
     'lines of moderate length.',
     ['inputs', 'configurations', 'histories'],
     'every message, probability, list of clues and combination of options',
     'The tests annotate one ASCII message and never remove anything.',
     [MSG],
     [('adding', MSG + ': Message.add_sb_headers, Message.add_notations'),
      ('removing', MSG + ': Message.remove_sb_headers, '
       'Message.remove_notations'),
      ('classification', MSG + ': Message.set_classification')],
     technique='round-trip testing of generated messages and options '
               '(Hypothesis)',
     note='The message has no such headers or notations before.')

prop('C18', 'The text of a message is the same message with CRLF',
     'The text of a message consists of lines that all end with CRLF, and '
     'read back it is the same message: the same headers in the same order, '
     'structure, types and decoded content, whether the message is read from '
     'bytes, text or a file, and whatever its encodings and line endings '
     'were. This is true also after its headers or its body were changed.',
     ['inputs'],
     'every well-formed message, with and without envelope line and mangling '
     'of From',
     'The tests write one ASCII message.',
     [MSG], [('text', MSG + ': Message.as_string, force_crlf'),
             ('reading', MSG + ': from_bytes, from_string, from_path')],
     technique='round-trip testing of generated messages (Hypothesis)',
     note='Well-formed messages.')

prop('C19', 'Reporting an exception leaves the message as it was',
     'A message in which an exception is reported has one more header (and '
     'an identifier header, if there is an identifier) at the end of its '
     'headers that holds the whole report, and otherwise exactly the same '
     'headers and body. No text of an exception can end the headers or '
     'become another header, and the lines of the report end like those of '
     'the message.',
     ['inputs'],
     'every message with a header; every exception and text of it',
     'The tests report one plain exception in one message.',
     [MSG], [('insertion', MSG + ': insert_exception_header')],
     technique='fuzzing with arbitrary exception texts against an '
               'independent parser of the result (Hypothesis)',
     note='Messages with at least one header.')

prop('C20', 'The identity of a message never changes, its state is kept',
     'Once a message has an identifier it keeps it: every attempt to set '
     'another one, to set one that is not a text, or to set one that is '
     'reserved is refused with an error and changes nothing, and annotating '
     'adds no second identity. What is no classification is refused. Classification, training and identifier are '
     'kept as they were last set, survive copying and pickling, and are '
     'independent in a copy, as are all the parts of the message.',
     ['histories', 'inputs'],
     'every history of setting, classifying, annotating, remembering, '
     'copying, pickling and writing',
     'The tests set one identifier twice.',
     [MSG], [('identifier', MSG + ': Message.set_id, '
              'Message.set_id_from_payload'),
             ('state', MSG + ': Message.__getstate__, __setstate__, '
              '__deepcopy__')],
     [('identifier', 'None or what was set first', MSG + ': Message.id')],
     technique='stateful model-based testing of generated histories '
               '(Hypothesis)',
     note='Identifiers are not empty.')

prop('C21', 'An in-memory corpus is a bounded first-in first-out dictionary',
     'After any history of adding and removing messages, a corpus has '
     'exactly the messages of a dictionary with the same history, where the '
     'one added first is dropped when there would be more than its maximum; '
     'length, iteration, lookup and membership all agree. Adding or removing '
     'a message notifies the listeners of this corpus exactly once, unless '
     'they are not to be notified.',
     ['histories', 'configurations'],
     'every history of additions, replacements and removals, every size '
     'limit',
     'The tests add and remove one or two messages.',
     [BASE, CACHES],
     [('messages', BASE + ': Corpus'), ('limit', CACHES + ': NaiveCache')],
     technique='stateful model-based testing of generated histories '
               '(Hypothesis)', note='Positive size limits.')

prop('C22', 'A directory corpus shows exactly the files that match',
     'A directory corpus contains exactly the files of its directory whose '
     'names match its filter, each as a message that has the file name as '
     'identifier and the content of the file, however many are kept in '
     'memory and whoever created the files. Adding a message makes it a '
     'file, removing one deletes its file, nothing else changes or '
     'deletes a file, and a failed addition leaves no file behind. A file '
     'that somebody else deletes at the moment of a look is seen or not '
     'seen, but makes nothing fail. No more added messages stay in memory '
     'than the corpus was told to keep.',
     ['histories', 'configurations', 'fault_sequences', 'schedules'],
     'every history of operations by the corpus and by others, every filter '
     'and memory size',
     'The tests look at a directory of two files.',
     [FS, CACHES, BASE],
     [('files', FS + ': FileCorpus'), ('memory', CACHES + ': FileCache')],
     [('messages in memory', 'a bounded part of the files',
       CACHES + ': FileCache')],
     technique='stateful model-based testing against the real directory '
               '(Hypothesis)',
     note='Files that were read are not changed by others.')

prop('C23', 'A trainer keeps its classifier trained on its corpora',
     'At any time, a classifier with trainers is trained exactly on the '
     'messages that were added to the spam and ham corpora (with '
     'notification) and not removed since, as if it were trained on those '
     'only. Moving a message from one corpus to the other corrects its '
     'training, a corpus that is not listened to has no effect, and each '
     'message knows whether and how it was trained. A message that a corpus '
     'refuses is not trained, and one that the classifier fails to learn or '
     'unlearn does not count as learned or unlearned.',
     ['histories', 'configurations'],
     'every history of adding, removing and moving messages in any number '
     'of corpora and kinds of corpora and classifiers',
     'The tests use mock messages, and add or remove a single one.',
     [TRAINERS, BASE],
     [('training', TRAINERS + ': Trainer.train, Trainer.untrain'),
      ('notification', BASE + ': message_added, message_removed')],
     technique='stateful model-based testing against a counting model '
               '(Hypothesis)',
     note='Distinct identifiers; the trainer is kept.')

prop('C24', 'Expiry removes exactly the messages older than the limit',
     'Removing the expired messages of a corpus deletes exactly those of its '
     'messages that are older than its limit, whether they are in memory or '
     'not, and no other file: a message stays at least until it is that '
     'old, and no longer than until the next search after that, and a file '
     'that somebody else deletes meanwhile makes nothing fail. Expiry does '
     'not untrain: no listener is notified and classifiers remain as they '
     'are.',
     ['histories', 'schedules', 'configurations'],
     'every set of ages, filters, limits and memory sizes; every schedule '
     'of arrivals, deletions and searches',
     'The tests let one message expire.',
     [FS], [('expiry', FS + ': ExpiryFileCorpus.remove_expired_messages')],
     technique='model-based testing with generated ages and schedules '
               '(Hypothesis)',
     note='The age of a message is that of its file.')

prop('C25', 'A directory corpus touches nothing outside its directory',
     'No identifier of a message and no key makes a directory corpus create, '
     'change, delete or show a file that is not directly in its directory: '
     'such attempts are refused, or find nothing, and leave all files as '
     'they were.',
     ['inputs', 'histories'],
     'every identifier and key, including those read from a message, that '
     'leads elsewhere, at every place of a history',
     'The tests only use plain names.',
     [FS, CACHES],
     [('containment', FS + ': FileCorpus'), ('memory', CACHES +
                                             ': FileCache')],
     technique='fuzzing of identifiers in generated histories, comparing '
               'snapshots of a scratch tree (Hypothesis)',
     note='No symbolic links.')

prop('C26', 'An IP address stands for the subnets it is in',
     'An IPv4 or IPv6 address, given as text or object, becomes the subnets '
     'of the given (by default 8, 16, 24 and 32 bits) prefix lengths that it '
     'is in, in order: two addresses share the subnet of a length exactly '
     'if they agree in that many first bits.',
     ['inputs', 'configurations'],
     'every address, every list of prefix lengths, every pair of addresses',
     'The tests have one address with the default lengths.',
     [IP], [('subnets', IP + ': subnets, gen_dotted_quad_clues')],
     technique='differential and metamorphic testing of generated addresses '
               '(Hypothesis)', note='Exact results.')

prop('C27', 'DNS lookups never fail and keep the default timeout',
     'Looking up a name or an address gives the addresses or the name that '
     'the resolver finds, or nothing if the lookup fails in any way, waits '
     'only a limited time, and leaves the default timeout of sockets as it '
     'was, even if interrupted or if several threads look something up at '
     'the same time. With the option to mine posting hosts, the '
     'tokens of a message are those of its hosts and addresses and of what '
     'their lookups find.',
     ['fault_sequences', 'histories', 'configurations', 'schedules'],
     'every history of lookups, every failure of the resolver, every '
     'default timeout, every order in which lookups in threads begin and '
     'end; every posting host',
     'The tests need a network, and only meet the failures it happens to '
     'have.',
     [DNS, TOK],
     [('timeout', DNS + ': timed'),
      ('lookups', DNS + ': dns_lookup, reverse_dns_lookup'),
      ('posting hosts', TOK + ': mine_nntp, clues_from_ipaddress, '
       'clues_from_domainname')],
     technique='fault injection into a stand-in resolver over generated '
               'histories (Hypothesis)',
     note='The resolver functions of the socket module are replaced.')

prop('C28', 'A slurping classifier only adds the pages at URLs',
     'A classifier that follows URLs trains and scores each message exactly '
     'like a plain one that is given the tokens of the message and, where '
     'documented (in training, and if the score of the message alone is '
     'unsure and it has fewer clues than the maximum), the tokens of the '
     'page at its URL. Without a URL it is a '
     'plain classifier. Failures to fetch a page become a single token and '
     'are remembered (or just forgotten, if what was remembered is damaged), '
     'and no page is fetched twice within the time it is kept. If fetching '
     'a page is interrupted, nothing is trained and later messages are '
     'treated as before.',
     ['histories', 'fault_sequences', 'configurations'],
     'every history of training, scoring and restarting, every content, type '
     'and failure of the pages',
     'The tests do not cover it: there is no network.',
     [SLURP],
     [('when to follow', SLURP + ': SlurpingClassifier.spamprob, learn, '
       'unlearn'),
      ('pages', SLURP + ': SlurpingClassifier.slurp'),
      ('which URL', SLURP + ': SlurpingURLStripper, base_url')],
     [('pages kept', 'pages and failures seen before, on disk',
       SLURP + ': SlurpingClassifier.setup, _save_caches')],
     technique='differential testing against a plain classifier with a '
               'stand-in for the network (Hypothesis)',
     note='Name resolution and HTTP are replaced.')

prop('C29', 'Filtering from end to end is the same with every classifier',
     'With directories of mail, trainers and a classifier kept in memory, a '
     'pickle, a shelf or a constant database, the score of any message is '
     'the same at any time after any history of deliveries, corrections and '
     'restarts: that of a classifier freshly trained on what the '
     'directories contain. Annotations of delivered messages do not affect '
     'later scores and training.',
     ['histories', 'configurations'],
     'every history of delivering, moving, removing, scoring and annotating '
     'messages, storing and restarting',
     'The tests look at each part alone.',
     [TOK, BASIC, STORAGE, TRAINERS, FS, MSG],
     [('tokens', TOK + ': Tokenizer'), ('training', TRAINERS + ': Trainer'),
      ('scores', BASIC + ': Classifier.spamprob'),
      ('persistence', STORAGE + ': PickleClassifier, ShelveClassifier, '
       'CDBClassifier')],
     technique='stateful differential testing of four whole systems and a '
               'model (Hypothesis)',
     note='What is to be kept is stored before it is loaded again.')

prop('C30', 'Every tokenizer option adds exactly its documented tokens',
     'Each option of the tokenizer (basic header tokenization and its skip '
     'list, counting all headers, absent headers, recipient prefixes and '
     'suffixes, Received hosts and addresses, Habeas headers, octets, image '
     'sizes, runs of short words, replaced non-ASCII characters, long '
     'words) alone or with others changes the tokens of a message exactly as '
     'documented, and has no other effect.',
     ['configurations', 'inputs'],
     'every set of up to four options; every message that has what they '
     'look at',
     'The tests run with the default options.',
     [TOK], [('options', TOK + ': module attributes, '
              'Tokenizer.tokenize_headers, Tokenizer.tokenize_body')],
     technique='differential testing of generated options and messages '
               'against an independent tokenizer (Hypothesis)',
     note='Exact token sets; images are not read.')

prop('C31', 'The classifier options change the scores as documented',
     'The prior probability of unknown words, the weight of this prior, the '
     'minimum strength of clues and the maximum number of clues can be '
     'configured: with any such values, with and without bigrams, the score '
     'and the evidence of a message are those of the documented formula with '
     'these values. The options have no influence on what is trained.',
     ['configurations', 'inputs'],
     'every combination of values of the options, every training, every '
     'message',
     'The tests only run with the defaults.',
     [BASIC],
     [('options', BASIC + ': UNKNOWN_WORD_PROB, UNKNOWN_WORD_STRENGTH, '
       'MINIMUM_PROB_STRENGTH, MAX_DISCRIMINATORS'),
      ('formula', BASIC + ': Classifier.probability'),
      ('choice of clues', BASIC + ': Classifier._getclues')],
     technique='differential testing against a reference model with the same '
               'options (Hypothesis)',
     note='Positive weight of the prior; up to 3600 clues.')


prop('C32', 'No message takes unreasonable time',
     'Tokenizing, training, scoring, annotating, writing and keeping a message '
     'takes time about in proportion to its size, whatever it contains and '
     'repeats: beginnings of tags, comments, sections, files and URLs without '
     'end, nested or unfinished elements of headers, long words, numbers and '
     'runs of white space. A message of some hundred kilobytes, made to keep '
     'the filter busy, takes seconds at most.',
     ['inputs'],
     'every message that repeats something up to 700,000 characters long',
     'The tests only use short messages; a regular expression whose time '
     'grows with the square of a text is as fast as any other with these.',
     [STRIP, TOK, MSG],
     [('sections', STRIP + ': Stripper.analyze and the regular '
       'expressions'),
      ('URLs', STRIP + ': URLStripper.tokenize'),
      ('tags, headers', TOK + ': html_re, received_host_re, '
       'received_ip_re, message_id_re, Tokenizer.tokenize_headers'),
      ('writing', MSG + ': Message.as_string, insert_exception_header')],
     technique='fuzzing with repeated pieces of markup under a limit of '
               'processor time (Hypothesis and an enumeration of pairs)',
     note='Texts of 700,000 and headers of 20,000 characters, limit of 15 s '
          'of processor time where less than 1 s is usual.')

prop('C33', 'Databases in the documented formats can be opened',
     'What an earlier run left behind stays usable: a pickle of a classifier '
     '(with or without the setting for bigrams), a shelf, a constant '
     'database, or the pickled state of a message, in the format that the '
     'code documents, is opened as the classifier (or message) with exactly '
     'these counts, scores accordingly, and can be trained, stored and opened '
     'again. A pickle or shelf of another version is refused with an error '
     'and left as it is.',
     ['inputs', 'histories'],
     'every content of a database, every protocol of pickling, every version',
     'The tests only read what they have just written: a format that changes '
     'both where it is written and where it is read passes them all.',
     [STORAGE, BASIC, MSG],
     [('pickles', BASIC + ': Classifier.__setstate__, WordInfo.__setstate__'),
      ('shelf', STORAGE + ': ShelveClassifier.load, _wordinfoget'),
      ('constant database', STORAGE + ': CDBClassifier.load'),
      ('messages', MSG + ': Message.__setstate__, Classification')],
     [('format', 'version 5: see pbt/props/c33.py', BASIC +
       ': PICKLE_VERSION')],
     technique='differential testing with an independent writer of the '
               'formats (Hypothesis)',
     note='Either str or bytes tokens in a shelf or constant database.')



def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            f.write(json.dumps(p) + '\n')
    manifest = dict(version=1, setup_cmd='bin/check --smoke', checks=CHECKS,
                    not_applicable=NOT_APPLICABLE)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
