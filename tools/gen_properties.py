"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=list(state),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

PX='MahjongAI/process_xml.py'; DR='MahjongAI/draw.py'; DE='MahjongAI/decision.py'; AG='MahjongAI/utils/agari.py'
T1='MahjongAI/agents/transformer.py'; T2='MahjongAI/agents/transformer_conv.py'; T3='MahjongAI/agents/transformer_conv_large.py'; T4='MahjongAI/agents/transformer_conv_ordered.py'
AGENTS=[T1,T2,T3,T4]; DL='MahjongAI/utils/dataloader.py'; SL='MahjongAI/supervised_learning.py'

p('C01','Meld codes decode to exactly the tiles, kind and source the log recorded',
 'For every meld code that a four-player game log can contain, decoding yields the right meld kind (sequence call, triplet call, open, closed or added quad), the right seat it was called from, the tiles the caller laid down from hand, and the tile that was claimed, each as a physical tile identity. Exactly one kind is recognised per code, and the five meld kinds never confuse each other. A meld is reported as containing a red five exactly when one of its tiles (claimed tile included) is the red five; a quad of suited fives always contains it.',
 ['inputs'],'all meld codes that follow the log format (every kind, tile copy, called position, caller/source seat); enumerated completely',
 'tests only assert constructor output for a dozen hand-picked codes and never check the tiles a code decodes to',
 [DR],[('bit-field decoding','Naki.pattern_* / Naki.get_exposed / Naki.is_*')],['decoded tiles, claimed tile, kind and source of each code'])

p('C02','A recorded call and the offered option for the same action compare equal',
 'Two meld descriptions have the same canonical form exactly when they describe the same choice by the caller: same meld kind, same tile kinds, same claimed position for sequences, same source seat for triplets and open quads, and same use of red fives where the caller can choose. In particular a call read from a log always has the canonical form of the option built for that same call, whichever physical copies of the tiles were involved. Two different choices never share a canonical form.',
 ['inputs'],'every pair (recorded code, constructed option) over all legal meld codes; enumerated completely',
 'the tests check that constructed options are already canonical, never that recorded codes canonicalise to them',
 [DR],[('canonicalisation','Naki._clean*'),('option constructors','Naki.from_*_info')],['convenient_naki_code of recorded and constructed melds'])

p('C03','Every call choice maps to its own in-range action index',
 'Each meld choice has one action index: closed and added quads map into the own-turn action space above pass, win and riichi, and sequence, triplet and open-quad calls map into the reaction action space above pass and win. Distinct choices (kind, tiles, claimed position, own red five used or not) never share an index, and the same choice has the same index whichever physical copies and source seat were involved. Every index fits the sizes of the network output heads (71 own-turn and 154 reaction actions).',
 ['inputs'],'all legal meld codes; enumerated completely, index table checked for range, injectivity and independence of copies',
 'no test touches the action-index functions',
 [DR]+AGENTS,[('own-turn index','Naki.get_during_turn_filter_idx'),('reaction index','Naki.get_post_turn_filter_idx')],['index returned for each code'])

p('C04','After a discard each opponent is offered exactly the calls the hand can make',
 'After every discard, the call options recorded for each other player are exactly the sequence (next seat only), triplet and open-quad calls which that player can form from the concealed hand and the discarded tile, including every distinct way of using or keeping a red five. The discarder, players who have declared riichi, and everybody after the last drawable tile get no call options, and an open quad is offered only while fewer than four quads are on the table. Each offered option names the correct seat as source and the exact tiles of the call.',
 ['inputs','histories'],'all concealed hands x discarded tiles x seats reachable in a game, including red fives on either side, three copies in hand, riichi and the last discard',
 'no test covers option generation; the combination space of hands, tiles and reds is far beyond examples',
 [DE,PX],[('per-tile-class option tables','decision_mask and _*_mask helpers'),('option installation','process(): discard branch')],['reaction options after each discard'])

p('C05','Win options are offered exactly when the hand really wins',
 'A win by self-draw, on a discard or by robbing an added quad is offered to a player exactly when the completed hand has a valid shape and at least one scoring element under the rules in force (including riichi, one-shot, dead-wall draw, last tile, robbed quad, blessing hands and seat/round winds for the true dealer), and, for wins on another player\'s tile, when none of the player\'s waiting tiles is among the player\'s own discards and the player has let no offered win pass since the own last draw (after riichi: ever since). Evaluating win options never alters the players\' hands.',
 ['inputs','histories'],'all hands, melds, winds, riichi and situation flags, discards histories and winning tiles reachable in a game',
 'no test exercises win evaluation at all',
 [AG,PX],[('win evaluation','evaluate_ron / evaluate_tsumo'),('situation flags','process(): draw, discard and added-quad branches')],['win options on each draw, discard and added quad'])

p('C06','Tile accounting conserves the 136 physical tiles at every decision',
 'At every decision point the concealed hand shown for the deciding player is exactly that player\'s concealed tiles, and the unseen-tile counts for that player are exactly the 136 tiles minus the own hand, all discards, all melded tiles and all revealed dora indicators, with red fives accounted separately. The wall counts are the full set minus dealt, drawn and revealed tiles, and the discard record marks exactly the kinds each seat has discarded so far. No count is ever negative or above the number of physical copies.',
 ['histories'],'every event history of a round (draws, discards, all meld kinds, dora reveals, riichi), at every decision',
 'tests build one state by hand; conservation is a property of whole histories',
 [PX,'MahjongAI/utils/constants.py'],[('incremental counters','process(): INIT/T/D/N/DORA branches')],['state attached to every half turn; network input rows'])

p('C07','The recorded situation is the true one, frozen at decision time',
 'Every decision carries the true public situation of that moment: scores, riichi sticks, counters, dealer, remaining rounds, remaining draws, riichi, double-riichi and one-shot flags, closedness, melds of all seats and revealed dora indicators. Double riichi is recorded only for a riichi on the first uninterrupted go-around, one-shot lasts from the accepted riichi until the next call or the player\'s own next discard, and remaining draws count down by exactly one per drawn tile. Later events never change what an earlier decision recorded.',
 ['histories'],'every event history of a round and every decision in it, compared after the whole round is processed',
 'aliasing and drift only show over whole rounds; tests never process a round',
 [PX,'MahjongAI/state.py'],[('state snapshots','process(): StateObject construction'),('riichi/one-shot/first-turn tracking','process(): REACH, N, T branches')],['state attached to every half turn'])

p('C08','Decision points mirror the log one for one, in order',
 'Processing a round yields, in log order and for the right seat, one own-turn decision per draw, one discard decision plus one reaction point per discard (with the exact tile discarded), and one reaction point per added quad, and nothing else. Rounds come out in log order, one entry per round, and each round has exactly one list of decision points and one list of event tokens.',
 ['histories'],'all legal event sequences including calls, quads, riichi, multiple winners and all kinds of draws',
 'no test processes a log',
 [PX,'MahjongAI/turn.py'],[('event loop','process()'),('round splitting','_get_rounds')],['half-turn lists per round'])

p('C09','Event tokens describe the public history, and decisions see only the past',
 'The token list of a round contains, in log order, one token per discard, call, accepted riichi and new dora indicator, from which acting seat, tile kind, drawn-and-discarded flag and call choice can be recovered unambiguously. Each decision\'s history position covers exactly the public events before it: reactions include the discard or quad reacted to, own-turn and discard decisions include everything up to then, and nothing later is ever visible.',
 ['histories'],'all event histories; every prefix of each round',
 'no test checks tokens or prefix positions',
 [PX]+AGENTS,[('token builders','discard2idx, naki2idx, reach2idx, new_dora2idx'),('history position','encoding_idx'),('prefix masking','TransformerTensorProcessor')],['token lists, encoding_idx, token rows'])

p('C10','Exactly the actions that were taken are marked as taken',
 'Every riichi declaration, call, quad and win in the log marks as taken exactly one option, belonging to the player who took it, at the decision point where it was taken; in a multiple win each winner\'s option is marked. Every other option stays unmarked, and an option that was available but declined is never marked.',
 ['histories'],'all event histories with calls (with and without red fives, either of several options), quads, riichi, self-draw, discard and robbed-quad wins, double wins and rounds without any',
 'no test checks the taken flags; some need rare histories (robbed quads, double wins, red variants)',
 [PX,DE,DR],[('matching the recorded call to an option','process(): N, REACH, AGARI branches')],['executed flags of all options after processing'])

p('C11','Own-turn options are exactly the legal ones',
 'On each draw the player is offered riichi exactly when not yet in riichi, hand closed, one discard away from a ready hand, holding at least 1000 points and at least four drawable tiles remain; a closed quad for exactly each kind held four times, and an added quad for exactly each own triplet call whose fourth tile is in hand, both only while a replacement draw is possible (a drawable tile remains and fewer than four quads are on the table). After riichi a closed quad is offered only with the tile just drawn and only if the waits stay the same.',
 ['inputs','histories'],'all hands, melds, scores, riichi states and remaining-draw counts reachable in a game',
 'no test exercises own-turn option generation',
 [PX],[('option generation on draw','process(): draw branch')],['own-turn options on each draw'])

p('C12','Only complete four-player red-five games against humans are used',
 'A log is accepted exactly when its game type says: human opponents, red fives in use, open tanyao allowed, four players, and nobody disconnected; every other log is rejected with the invalid-game error and never yields data. Game length (east-only or east-south), and the remaining rounds in total and as dealer for each seat, follow the game type and round number.',
 ['inputs','configurations'],'all 256 game-type values, disconnect markers at every position, both game lengths, all round numbers',
 'no test touches the filter or game types',
 ['MahjongAI/gameinfo.py',PX],[('type bits','GameInfo'),('rejection','process(), _get_rounds')],['accept/reject outcome, remaining-round fields'])

p('C13','Processing is deterministic and files, rounds and seats do not interfere',
 'Processing a log gives the same result no matter which other logs were processed before, in what order, or how often, and a failed log leaves no trace in later results. Each round\'s data depends only on that round: reordering or removing other rounds does not change it, nor does the layout of the file (attribute order, white space, name) and the printing option. Shared constants are never modified.',
 ['histories','inputs'],'all sequences of process calls over valid and invalid logs, and all round permutations of a log',
 'tests run one thing per process; leakage needs sequences',
 [PX,'MahjongAI/utils/constants.py'],[('per-call state','process()')],['results of repeated and interleaved processing'])

p('C14','Training rows carry the legal action mask and the action actually taken',
 'For each model, preparing batches yields one own-turn row per draw with an option, one discard row per discard, and for each reaction point one row per player with an option in turn order from the acting seat up to and including the first who acted, and no other rows. Each row\'s mask allows exactly pass plus the player\'s options (for discards exactly the held tiles), and its label is the action really taken, or pass; the label is always allowed by the mask.',
 ['inputs','histories'],'all decision points of all histories, for each of the four model families',
 'the only tensor test targets an old interface and fails at baseline',
 AGENTS,[('row building','TransformerTensorProcessor._build_during_tensor/_build_discard_tensor/_build_post_tensor')],['mask and label of each prepared row'])

p('C15','Training rows encode the decision\'s situation and history exactly',
 'Each row\'s history part is the tokens visible at that decision padded with zeros to 150, and its situation part encodes the hand, unseen tiles and discards (as counts or as unary levels per copy, red fives included), the seven per-seat facts and the four round facts of that same decision. In the seat-relative model discards are rotated so the deciding player comes first and each row carries the deciding seat. Nothing is clipped, swapped or taken from another decision.',
 ['inputs','histories'],'all decision points of all histories, for each of the four model families',
 'no passing test looks at prepared rows',
 AGENTS,[('situation encoding','TransformerTensorProcessor._convert_state_obj_to_tensors'),('history encoding','_build_*_tensor')],['prepared rows'])

p('C16','Batching and sampling keep every row intact',
 'Batching several games yields exactly the rows of the single games, in order, none lost, duplicated or mixed, and games, rounds or half-turn types without rows are tolerated. When a model limits the number of rows, it trains on that many distinct rows of the batch with history, situation, mask, label and seat still belonging together, and no row is barred from being drawn.',
 ['inputs','configurations'],'all groupings of games into batches, empty categories, all sample sizes and random draws',
 'no test batches anything; misalignment is silent',
 AGENTS,[('stacking','TransformerTensorProcessor.stack_batches'),('sampling','*Model.forward')],['rows before and after batching; tensors reaching encoder and decoder'])

p('C17','Model outputs are legal, finite, row-independent, and the loss is what it says',
 'For every batch each model yields one result per decision type present, in the order own-turn, discard, reaction, with finite scores for allowed actions and effectively zero probability for forbidden ones. The reported loss is the mean negative log-probability of the labels over allowed actions, is finite, and carries gradient to the parameters. In evaluation mode a row\'s scores do not depend on which other rows share the batch or on their order.',
 ['inputs','configurations'],'all batches of prepared rows, all model families and depths, random parameters',
 'no passing test runs a model',
 AGENTS,[('masked scores and loss','Decoder.forward'),('forward','*Model.forward')],['logits and loss of each head'])

p('C18','Predictions depend on every part of the visible history and situation',
 'With generic parameters, changing any visible history event (acting seat, event kind, tile, drawn-and-discarded flag, call choice) or its position changes the model\'s scores for that decision, as does changing any part of the situation. An event that is not there contributes nothing: padding positions carry no event information.',
 ['inputs','configurations'],'all single-field changes of visible events and situation entries, each model family',
 'no test looks at what the network input layers do with tokens',
 AGENTS,[('event embedding and masks','Encoder.forward'),('situation network','StateNet')],['scores under single-field perturbations; embeddings of events'])

p('C19','A decision never contains another player\'s hidden information',
 'Changing only what the deciding player cannot see at that moment (other players\' concealed tiles, the order of the unseen wall, anything that happens later) leaves that decision\'s training input row, mask and offered actions unchanged. Every reaction row is built from the reacting player\'s own hand and view, not from the discarder\'s.',
 ['histories','inputs'],'all pairs of games indistinguishable to the deciding player up to a decision',
 'a two-run (non-interference) property; no test compares runs',
 [PX]+AGENTS,[('per-seat view','process(): state construction'),('reaction rows','_build_post_tensor')],['rows of twin games that differ only in hidden information'])

p('C20','The data loader delivers every usable game exactly once per pass',
 'One pass over a directory yields every accepted log exactly once, in batches of at most the requested size where every batch but the last is full and no batch is empty, and ends cleanly; after a reset the next pass delivers the same games again. Logs that are rejected, malformed or inconsistent are skipped wherever they stand, without ending the pass, the process or affecting the other games.',
 ['inputs','configurations','fault_sequences'],'all directory contents mixing good, rejected, malformed and inconsistent files, all batch sizes, repeated passes',
 'the loader is only constructed in a failing test; faults are never injected',
 [DL],[('iteration','DataLoader.__next__ / reset')],['games delivered per pass'])

p('C21','Training resumes from the newest complete checkpoint',
 'Resuming picks the checkpoint of the requested model with the highest iteration number, compared as a number and never one of another model, loads it, and continues with the next iteration; without one it starts from iteration 0. A crash or full disk at any moment while a checkpoint is being written never leaves an unloadable file as the newest checkpoint and never damages an older one.',
 ['crash_points','inputs','fault_sequences'],'all sets of checkpoint file names; every byte position at which writing a checkpoint can fail',
 'no test trains, resumes or injects faults',
 [SL],[('selection','find_latest_checkpoint'),('saving','train(): checkpoint')],['chosen checkpoint, iterations run, directory after injected write faults'])

p('C22','Validation measures without training',
 'Computing the validation loss changes no parameter, buffer or gradient, uses no randomness of dropout, leaves the model in training mode, and leaves the validation data ready to be read again from the start. The value is the mean of the losses over the evaluated batches, and repeating it on the same model gives the same value.',
 ['inputs','histories'],'all models, validation sets, and interleavings of training and validation',
 'no test calls it',
 [SL,DL],[('validation','estimate_loss')],['parameters, mode, loader position and value around validation'])

p('C23','The training loop trains on the right data, in order, and saves every iteration',
 'Iteration i trains on the games of the data year selected round-robin by i, each game exactly once, applies one optimiser step per yielded loss with the learning rate following linear warm-up then cosine decay, and afterwards saves exactly one checkpoint named for that model and iteration holding the parameters reached. Running several iterations, or resuming between them, visits the years in the same order. The chosen model name builds the matching model family and depth.',
 ['histories','configurations'],'all model names, iteration counts, resume points',
 'no test trains',
 [SL],[('loop','train()'),('scheduler','train(): lr lambda')],['files read, optimiser steps, learning rates, checkpoints'])

p('C24','The shanten solver returns the true distance to a ready hand',
 'For every legal 13- or 14-tile hand (open melds counted as complete groups) the solver returns the minimum number of tile exchanges to a ready hand over the standard, seven-pairs and thirteen-orphans forms, where the last two apply only to closed hands and red fives count as ordinary fives. The hand passed in is left unchanged and results do not depend on earlier calls.',
 ['inputs'],'all legal hands of 1, 2, 4, 5, 7, 8, 10, 11, 13 or 14 concealed tiles with and without red fives',
 'no test calls the solver',
 ['MahjongAI/utils/shanten.py','MahjongAI/utils/constants.py'],[('search','ShantenSolver.solve*')],['solver result vs. independent computation'])

p('C25','Data collection keeps only ranked logs and saves each linked game once',
 'The raw-data filter deletes exactly the files that are not high-rank table logs, unpacks every remaining archive, and touches nothing outside its directory. The downloader requests exactly the games linked from the collected pages, in the log-download form of their identifier, and stores each successful response byte for byte under the game\'s identifier, and nothing for failed responses.',
 ['inputs','fault_sequences'],'all directory contents, page contents and response outcomes',
 'the scripts have no tests',
 ['MahjongAI/data/filter_raw.sh','MahjongAI/data/scrape_data.py'],[('filter','filter_raw.sh'),('downloader','scrape_data.py')],['files before and after, requests made'])

p('C26','Running the library leaves nothing behind but its results',
 'Processing a log, whether it succeeds or is refused, leaves the process and the disk as they were: the log file is closed as soon as the call ends (also while its exception is kept), no file is created, changed or removed, and the working directory, the environment, the random generators (random, numpy, torch), numeric settings, threads and signal handlers are unchanged; the same holds for passes of the data loader, full or abandoned, and for validation. Memory stays bounded: a pass, a validation or a training run of any length keeps only the current games in memory, not those of earlier batches or failed files, and no tensors, gradients\' graphs or open files of earlier steps; processing dropped results again and again accumulates nothing. Training writes only its checkpoints and its own log file.',
 ['inputs','histories','fault_sequences'],'all logs and directories with usable and unusable files, passes, validations and training runs of any length',
 'no test looks at the process after a call, and leaks need long runs to show',
 [PX,DL,SL],[('file reading','_get_rounds'),('batching','DataLoader.__next__'),('validation','estimate_loss'),('loop','train()')],['process state, files, live objects, autograd graphs and bytes before, during and after'])

p('C27','Work done side by side gives the results of the same work done alone',
 'Processing logs in several threads of one process, also when some of the logs are refused, gives each log exactly the result (or the refusal) it has when processed alone. Data loaders over the same or different directories that are advanced alternately, nested or in different threads each deliver the pass they deliver alone, and evaluations of the same or of different models that are advanced alternately or run in different threads yield the outputs, losses and gradients they have alone. Training runs of different model names that run at the same time in one working directory, whatever their timing, all end, each starts from its own newest checkpoint and writes checkpoints that hold its own parameters, and none touches the checkpoints of another.',
 ['inputs','schedules','histories'],'all sets of logs, directories, models and training runs and all ways their steps interleave',
 'no test runs two things at once',
 [PX,DL,SL],[('processing','process()'),('batching','DataLoader.__next__'),('models','agents/*.forward'),('checkpoints','train()')],['results of overlapping calls against the same calls alone, thread switches, meetings of processes at their checkpoints'])

p('C28','A checkpoint holds everything a model has learned',
 'The saved parameters of a model determine it: a newly built model of the same family and depth that loads them, with whatever start values, after other training or in another process, gives the same scores and losses for every batch and is trained further by the same gradients. Every value that training changes or that is chosen at random for a model is among the saved parameters, and no two models share any of them: training one leaves every other model as it was. What a model answers for a batch in evaluation mode depends on its parameters and the batch only, not on the batches it saw before.',
 ['inputs','histories','configurations'],'all four families and depths, start values, trainings and batches',
 'no test builds, saves or restores a model',
 [SL,'MahjongAI/agents/transformer.py','MahjongAI/agents/transformer_conv.py','MahjongAI/agents/transformer_conv_large.py','MahjongAI/agents/transformer_conv_ordered.py'],[('saving and loading','train()'),('models','agents/*')],['outputs and gradients of the saved and the restored model, tensors reachable from a model against its saved parameters'])

p('C29','Logs whose tiles or turns do not add up are refused, not turned into data',
 'process() raises an ordinary error, in bounded time and without ending the process, for every log that contradicts itself anywhere in any of its rounds: hands that are not four times thirteen different tiles; a tile discarded or laid down by a seat that does not hold it; a tile drawn or revealed that is already out; a call of another tile than the last discard, or of another seat\'s; a quad added to a triplet that was never called; a draw, discard, riichi or own quad out of turn, a discard without a draw or call, a draw without a discard before it, a draw past the end of the wall; a round without a result or with further events after it; unknown events or tiles. The data loader leaves such a log out of the pass. A log without contradictions is accepted, however it is arranged.',
 ['inputs','histories'],'all logs, whatever is wrong with them and wherever',
 'no test processes a damaged log; a contradiction shows only in what is made of the later events',
 [PX,DL],[('checks','process()'),('skipping','DataLoader.__next__')],['verdict of process() on damaged versions of consistent logs'])

p('C30','The training log and the command line tell what really happens',
 'Every message of a training run goes, in order and with the time, to the console and at once to the run\'s log file, which is only ever appended to: no message is lost when the run is killed later or when another run starts in the same second. The log names the iterations, data directories and batches as they are used, the checkpoint a run starts from, each checkpoint only once it is complete on disk, every validation (after the first batch of an iteration and at every thousandth game) with the mean validation loss and the last training loss of that moment, and the learning rate reached after every ten thousand updates. The command line accepts exactly the nine model names and a whole number of iterations, and stops with an error before training or touching a checkpoint for anything else.',
 ['inputs','histories','crash_points'],'all runs, resumed or not, killed at any moment, and all arguments',
 'no test trains; long runs are only known through their log',
 [SL,DL],[('log','log_message()'),('loop','train()'),('arguments','__main__')],['log file and console against recorded calls, losses, rates and files, and what was in the log at each of these moments'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P), max(len(x['title']) for x in P))
