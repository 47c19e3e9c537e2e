#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
MB="base/src/videos/minesweeper_board.rs"; BV="base/src/videos/base_video.rs"; UT="base/src/utils.rs"; AL="base/src/algorithms.rs"
NOASSERT="The existing tests only print results: none of them asserts the state reached, and they replay two or three fixed games."
p("C01","The visible board never lies, for any mouse history",
 "After every mouse event of a game on a fixed board, every opened cell shows exactly the number of mines around it, every covered or flagged cell is still intact, opened empty regions are opened completely up to flagged cells, and hit mines or wrong-flag marks appear only when the game is lost. A left click, a chord and a right click change exactly the cells the rules of minesweeper say they change, and nothing else changes the board. This holds for lost, duplicated, reordered and out-of-board events too: an event either is refused without any effect or is handled, and none aborts the process.",
 ["histories","inputs","fault_sequences"],"every board, every sequence of mouse events (including ones a physical mouse cannot produce: lost, duplicated, reordered releases), inside and outside the board",
 NOASSERT+" The state machine has about forty (phase, mouse state, event) combinations, and most errors need three or more events in an unusual order.",
 [MB,UT],[("mouse/board state machine",MB+":step"),("left_click / right_click / chording_click",MB),("flood fill and loss marking",UT+":refresh_board")],
 [("game_board","what the player sees",MB),("mouse_state","buttons held",MB)],["MinesweeperBoard.game_board","BaseVideo::get_game_board"])
p("C02","A game is won or lost exactly when the rules say so",
 "A game is reported as won exactly when every safe cell of the current board is open and no mine was hit, and as lost exactly when a mine was opened; before that it stays in progress. A finished game never changes state again, whatever events follow, and the verdict follows the current board also when the board is swapped during the game (guessable modes).",
 ["histories","inputs","fault_sequences"],"every board and every mouse event history, including board replacement in mid game by any board that agrees with what is already open, and events after the end",
 NOASSERT+" The verdict is kept incrementally by a moving cursor, so it depends on the whole history, not on the last click.",
 [MB,BV],[("incremental win scan",MB+":is_win"),("loss on mine",MB+":left_click/chording_click"),("set_board in mid game",BV+":set_board")],
 [("pointer_x, pointer_y","resume point of the win scan",MB)],["game_board_state","is_completed"])
p("C03","Click, flag, effective-click and solved-3BV counters are exact",
 "While a game is played, the left, right and double counters grow by exactly one per completed click of that kind (a right press that turned into a chord on an opened cell is not a right click), the flag counter always equals the number of flags on the board, the effective-click counter grows by one for each click that opened something and for each mine flagged for the first time, and cancelling all flags before the first click returns every counter to zero. The solved-3BV counter always equals the number of openings completely opened plus isolated numbers opened; it never exceeds the 3BV of the board and equals it when the game is won. No history of events makes a counter wrap around.",
 ["histories","inputs","fault_sequences"],"every board and every event history; the exact per-click laws for histories a two-button mouse (plus a combined press) can produce, the flag, 3BV and no-wrap laws for all histories",
 NOASSERT+" Counting errors need particular orders of press and release of both buttons, flags on safe cells of an opening, or cancelled pre-game flags.",
 [MB,UT],[("counter updates",MB+":left_click/right_click/chording_click"),("3BV bookkeeping",MB+":cell_is_bbbv/op_num_around_cell/cell_is_op_completed"),("pre-game reset",MB+":clear_click_num")],
 [("left,right,double,ce,flag,bbbv_solved","live counters",MB),("flagedList","mines that were flagged once",MB)],["MinesweeperBoard public counters","BaseVideo::get_left/get_right/get_double/get_cl/get_flag/get_ce/get_bbbv_solved"])
p("C04","Game time follows the monotonic clock and nothing else",
 "Recorded event times start at 0 with the first recorded event, never decrease and equal the elapsed monotonic time to the millisecond; the final time is the time from the first opening click to the deciding click (zero when the first click decides), and the running display and per-second rates agree with it at every moment. Jumps of the wall clock never change any of these; start and end stamps are the wall-clock readings in microseconds at the first opening click and the deciding click, for each game of a session that is reused for many games.",
 ["histories","schedules","fault_sequences"],"every event history, every assignment of event instants (sub-millisecond to hours), stalls, wall-clock jumps forwards and backwards, reading the display at any instant, and reuse of one session for several games",
 "The tests run against the real clock, finish within microseconds and never compare a time with anything.",
 [BV,"base/src/miscellaneous.rs"],[("time of an event",BV+":step"),("time display",BV+":get_time, get_*_s"),("rounding",'base/src/miscellaneous.rs:time_ms_between, s_to_ms')],
 [("video_start_instant","instant of the first recorded event",BV),("game_start_ms","offset of the first opening click",BV)],["get_time","get_rtime","get_rtime_ms","event times","start_time","end_time"])
p("C05","A saved replay reads back exactly, and a torn one is refused",
 "For every finished game, encoding the replay, writing it to disk and reading it back yields the same board, the same events (kind, time to the millisecond, position), the same metadata, final time, 3BV, flags and checksum, also when the checksum is set, set again or left out. If only a strict prefix of the file reached the disk, reading it reports an error instead of a shorter game. A game the format has no room for (over 255 rows or columns, or 2^24 ms) cannot be written as a different one: encoding it fails visibly.",
 ["histories","inputs","crash_points"],"every finished game up to the limits of the format (sides up to 255, pointer coordinates up to 65535, 16777 s), every metadata string without NUL, every byte offset at which the write can be cut",
 "The tests write one fixed game and read it back without comparing anything; no truncation is ever tried.",
 [BV,"base/src/videos/evf_video.rs"],[("encoder",BV+":generate_evf_v0_raw_data"),("checksum append/replace",BV+":set_checksum"),("decoder","base/src/videos/evf_video.rs:parse_video")],
 [("raw_data","encoded file",BV)],["get_raw_data","parsed BaseVideo fields"])
p("C06","Saving a replay never destroys another and never lies",
 "Saving writes exactly the encoded bytes to NAME.evf, or to the first free of NAME(2).evf, NAME(3).evf, ...; it never changes or truncates a file that already exists, even when several savers use the same name at the same time, each of which ends up with its own complete file. If the disk reports an error, or accepts fewer bytes, saving either completes the file or fails visibly; it never returns as if it had succeeded.",
 ["schedules","fault_sequences","inputs"],"every set of existing files, every interleaving of concurrent savers at their system calls, short writes, interrupted calls, full disk and I/O errors at any call",
 "The tests save one file from one thread into a real directory; they cannot interleave two savers or make the disk fail.",
 [BV],[("name probing and write",BV+":save_to_evf_file")],[],["directory contents after saving"])
p("C07","No file content can crash the replay readers",
 "Opening and parsing any byte string as any of the four replay formats ends, within time proportional to its size, in either a parsed replay or an error value; it never panics, overflows, loops or exhausts memory. Transient read errors and short reads while loading do not change the result.",
 ["inputs","fault_sequences"],"every byte string: valid files with flipped, inserted, deleted, duplicated and truncated bytes, boundary values in every length field, and arbitrary bytes; short and interrupted reads",
 "The tests parse a handful of intact files (absent from the repository, so not even that runs).",
 ["base/src/videos/evf_video.rs","base/src/videos/avf_video.rs","base/src/videos/rmv_video.rs","base/src/videos/mvf_video.rs",BV],
 [("byte reader",BV+":get_u8.."),("format parsers","base/src/videos/*_video.rs:parse_video")],[],["parse_video result"])
p("C08","What playback shows depends only on the time sought",
 "During playback, after any sequence of seeks by time or by event, the shown board, counters, mouse state and pointer position are those after the last event whose time is not later than the sought time (the first event when there is none), and times outside the replay are clamped to its ends. The way the position was reached, repeated seeks included, never matters; an event number out of range is refused.",
 ["histories","inputs"],"every replay (including many events at the same instant) and every sequence of seeks forwards, backwards, repeated, out of range, exactly on and between events",
 "The tests seek once, forwards. Seeking is incremental from the current position, so correctness is a property of seek histories.",
 [BV],[("incremental seek",BV+":set_current_time"),("seek by event",BV+":set_current_event_id")],[("current_event_id, current_time","playback position",BV)],["get_game_board","current_event_id","get_time","get_x_y","get_mouse_state","counters"])
p("C09","A replay reproduces the game that was played",
 "Analysing the saved replay of a live game reproduces it: after every event the same board, button state and counters as in the live session (except that a losing click, which the analysis rates as having no effect, leaves the board shown unchanged), the same final verdict, board statistics and duration, and at the end of playback every indicator (clicks and clicks per second, effective clicks, solved 3BV, 3BV per second, estimated time, rqp, qg, stnb, ioe, thrp, corr) equals the one the finished session reported and its definition. Mouse travel grows from each event on the board to the next event on the board by their distance scaled to 16-pixel cells, whatever happened outside in between.",
 ["histories","inputs"],"every finished game, with pre-game flags, cancelled pre-game flags, chords, out-of-board releases, every cell size",
 "No test compares a live session with its replay; live play and analysis are two separate implementations of the same bookkeeping.",
 [BV,MB],[("live recording",BV+":step"),("analysis",BV+":analyse"),("indicators",BV+":get_*")],[("video_action_state_recorder","per-event state",BV),("game_board_stream","boards shown",BV)],["event records","get_* indicators"])
p("C10","A reset or reused session behaves like a fresh one",
 "After a reset at any point, a session or board behaves from then on exactly like a newly created one given the same board, events and clock: same visible boards, verdicts, counters, times, recorded events and encoded replay. Nothing of an earlier game leaks into a later one.",
 ["histories","fault_sequences"],"every history before the reset (won, lost, abandoned with buttons held, with pre-game flags, in playback), every board size change, and every history after it",
 "The tests never play two games with one session.",
 [MB,BV],[("board reset",MB+":reset"),("session reset",BV+":reset, set_board")],[],["all public observations of the session"])
p("C11","Mine laying is legal, start-safe and uniform",
 "For every size, mine count and start cell, the generated board has exactly the requested mines, correct numbers in every other cell and no mine on the start cell (standard rule) or on it and its neighbours (opening rule). For the true random source every arrangement allowed by the rule is equally likely, and concurrent generators draw independently of each other.",
 ["inputs","schedules","configurations"],"every geometry including single rows and columns, every mine count up to the maximum, every start cell, every outcome of the random source, generators on several threads in any interleaving",
 "The tests generate two or three boards and print their 3BV.",
 [UT],[("standard rule",UT+":laymine"),("opening rule",UT+":laymine_op")],[],["returned boards"])
p("C12","No-guess generation is sound and terminates under every schedule",
 "Whenever a no-guess generator reports success, the board obeys the opening rule with exactly the requested mines and can be cleared from the start cell by logic alone, without using the total mine count; a reported failure still comes with a legal board. The threaded generator ends under every schedule, leaves no thread behind, and reports success whenever any of its workers found a no-guess board. The no-guess test itself accepts exactly the boards that can be so cleared from an opening; the look for dead structures condemns only boards that no opening clears, however the board is turned; and the filtering generator makes every board that can be cleared equally likely.",
 ["schedules","inputs","configurations"],"every interleaving of the workers including stalled and starved ones, every outcome of the random source, sizes, densities and attempt limits (0 included); fronts up to the engines' enumeration limit of 55 cells",
 "The tests call each generator once with the OS scheduler and look at nothing; which worker reports first is decided by the schedule.",
 [AL,UT],[("threaded generator",AL+":laymine_solvable_thread"),("single-thread generator",AL+":laymine_solvable"),("adjusting generator",AL+":laymine_solvable_adjust"),("no-guess test",AL+":is_solvable")],
 [("stop flag and result channel","shared by the workers",AL+":laymine_solvable_thread")],["(board, success) returned"])
p("C13","Parallel 3BV sampling loses nothing and is unbiased",
 "The parallel sampler returns exactly 16*floor(n/16) samples in total under every schedule, each a possible 3BV of an expert board with a safe start, and the samples follow the true 3BV distribution of such boards, independently between workers.",
 ["schedules","inputs"],"every interleaving of the 16 workers, every outcome of the random source, every start cell, sample sizes from 0 up",
 "The tests call it once and print.",
 [AL,UT],[("16 worker threads",AL+":sample_3BVs_exp"),("fast 3BV",UT+":cal_bbbv_exp")],[],["returned histogram"])
p("C14","The protected board is indistinguishable from a plain one",
 "For every random mask and every access order, reading the protected board by index, by iteration over rows and cells, or by conversion yields exactly the stored board; cloning and replacing its content keep this, and every function that accepts either kind returns the same result for both.",
 ["inputs","histories"],"every board with cell values -3 to 16, every outcome of the random source (extreme mask values included), every sequence of reads, clones, sets and full or partial iterations",
 "The tests read one board back and print it.",
 ["base/src/safe_board.rs"],[("masking","base/src/safe_board.rs:encode/decode"),("access","base/src/safe_board.rs: Index, Iterator, into_vec")],[("value_1..3, counter","masked cell and iteration cursor","base/src/safe_board.rs")],["values read"])
p("C15","Deductions at every position of a game are sound and complete",
 "At every position reached in a game, a cell is deduced safe (or a mine) only if it is so in every mine arrangement consistent with the visible numbers, the combined engines find all such cells, and cells deduced by the cheap engines are a subset of those that includes whatever a single number, or a pair of numbers sharing covered cells, says by itself. The answers attached to a position do not depend on the order in which they are asked for or on how often.",
 ["inputs","histories"],"every position reachable by play on every board (with player flags right or wrong), every order and repetition of the queries; completeness for fronts up to the enumeration limit of 55 cells",
 "The tests run single hand-made positions and print the answers; they know no ground truth.",
 [AL,UT,"base/src/board.rs"],[("cheap engines",AL+":solve_direct, solve_minus"),("enumeration engine",AL+":solve_enumerate"),("combined",AL+":get_all_not_and_is_mine_on_board"),("cached position","base/src/board.rs:GameBoard"),("splitting into blocks",UT+":refresh_matrixs")],[],["deduced cells"])
p("C16","Mine and opening probabilities are exact at every position",
 "At every position reached in a game, the reported probability of each covered cell being a mine is the fraction of arrangements with the given total number of mines, consistent with the visible numbers, in which it is one; the reported range of possible mine totals is attained; the opening probability of a cell is the fraction in which it and its neighbours are free of mines. Marking deduced cells beforehand changes no probability.",
 ["inputs","histories"],"every position reachable by play with any number of remaining mines, any number of separate fronts, with or without an untouched interior, marked or not; fronts up to the enumeration limit of 55 cells",
 "The tests print the probabilities of a few positions.",
 [AL,UT,"base/src/board.rs"],[("probability engine",AL+":cal_possibility"),("on-board form",AL+":cal_possibility_onboard"),("opening probability",AL+":cal_is_op_possibility_cells"),("arrangement counting",UT+":cal_table_minenum_recursion")],[],["returned probabilities"])
p("C17","Session operations are accepted exactly in the phases that allow them",
 "In every phase of a session (before the game, pre-game flagging, playing, finished, playback) each metadata change, result query and board replacement is accepted exactly when that phase allows it; a refused operation reports an error and changes nothing observable, an accepted one is observable at once and survives into the encoded replay.",
 ["histories"],"every interleaving of mouse events, metadata operations and result queries over whole session lifecycles",
 "The tests set metadata once after one finished game and ignore the results.",
 [BV],[("phase guards",BV+": set_*/get_*")],[("game_board_state","session phase",BV)],["Ok/Err of the operations"])
p("C18","Replay annotations are faithful and leave the replay unchanged",
 "Running any selection of the replay analyses on a parsed and analysed replay never fails and changes nothing but the comments; the survival chance, risky-guess, needless-guess, hard-deduction, vision-transfer and mouse-path remarks appear exactly on the events that satisfy their definitions, with the exact probability or ratio, and do not depend on which other analyses ran before or on earlier queries of the replay. (Risky: the clicked cell was a mine with probability 0.51 or more. Needless: an undeducible cell was clicked although some cell was deducible as safe. Hard deduction: the opened or flagged cell was deducible by enumeration only. Vision transfer: an opening click 112 pixels or more from the one before, which left a deducible safe cell within 3 cells. Mouse path: path length between clicks above 3.5 or 7 times the straight line. Survival: product of the safe probabilities of the left clicks after the first.)",
 ["histories","inputs"],"every replay and every sequence of analyses and playback queries",
 "The tests print the comments of one replay.",
 ["base/src/videos/analyse_methods.rs","base/src/board.rs",BV,UT],[("analyses","base/src/videos/analyse_methods.rs"),("good-chord test",UT+":is_good_chording")],[],["comments"])
p("C19","Board statistics are exact and independent of query order",
 "For every board, the 3BV, number of openings, number of islands and number of cells of each value are the exact values by definition, for both kinds of board, and the cached statistics of a board object return the same values however often and in whatever order they are asked for.",
 ["inputs","histories"],"every board and every sequence of statistics queries",
 "The tests compute a few and print them; the caching errors need the same query twice.",
 [UT,"base/src/board.rs"],[("3BV/openings/islands/cells",UT+":cal_bbbv, cal_op, cal_isl, cal_cell_nums"),("cache","base/src/board.rs:Board")],[],["returned numbers"])
p("C20","The guess referee rules every click correctly",
 "At every position reached in a game, the referee for strict no-guess play calls a cell solvable exactly when its content follows from the visible numbers, and the referee for tolerant modes calls a click on a deducible safe cell correct, on a deducible mine fatal, on an opened cell void, on an undeducible cell needless when its own front offers a deducible safe cell and necessary when it offers none (the front of a cell is the covered cells linked to it through touching covered cells and common numbers). Flags the player placed, right or wrong, never influence the verdict. The referee for chords calls a legal chord good exactly when it opens something and no legal chord on the four cells beside it would open more.",
 ["inputs","histories"],"every position reachable by play with fronts up to the enumeration limit of 55 cells, every cell, every placement of player flags",
 "The tests print two or three verdicts.",
 [AL,UT],[("strict referee",AL+":is_able_to_solve"),("chord referee",UT+":is_good_chording"),("tolerant referee",AL+":is_guess_while_needless"),("front search",UT+":find_a_border_cell"),("block splitting",UT+":refresh_matrixses")],[],["verdicts"])
p("C21","Replays of the older formats are decoded faithfully",
 "For every well-formed replay of the three older formats, the reader recovers the board, the events with their times and positions, the player, level, mode, 3BV, start stamp and final time that were written, and playing it back leads to the same result as the original game. A file cut before the end of its event stream is refused.",
 ["inputs","crash_points"],"every game encodable in the three formats (written by an independent encoder of the format) and every offset at which the file can be cut",
 "The sample files the tests name are not in the repository and nothing is compared.",
 ["base/src/videos/avf_video.rs","base/src/videos/rmv_video.rs","base/src/videos/mvf_video.rs"],[("readers","base/src/videos/*_video.rs:parse_video")],[],["parsed BaseVideo fields"])
p("C22","Optical recognition returns the board in the picture",
 "For a clean screenshot of a board, optical recognition returns exactly the displayed cells.",
 ["inputs"],"every clean screenshot",
 "One sample picture is tried.",
 ["base/src/OBR.rs",AL],[("recognition",AL+":OBR_board")],[],["returned board"])
p("C23","The replay audit rules each analysed replay as specified",
 "The audit of an analysed replay never fails and calls it invalid when the recording program is not an accepted one (Arbiter, Viennasweeper, 元3.1.7 or 元3.2), when it is a Viennasweeper replay started after the second 1682265600, or when a 元 replay carries a checksum of 32 equal bytes or is marked as unfair; uncertain when a Viennasweeper start stamp does not begin with ten digits, or when the replay has fewer than ten events per 3BV; and otherwise valid exactly when the game was won. The verdict is the same for the finished session and for its saved replay, and neither playback, other analyses nor queries change it.",
 ["inputs","histories"],"every replay of the four formats that can be read and analysed, damaged but readable files included, every wall clock at which it was recorded, and every history of playback and queries before the audit",
 "No test audits anything; the verdict needs whole replays of particular programs, dates, checksums and event counts.",
 [BV],[("audit",BV+":is_valid")],[],["return value of is_valid"])
p("C24","End-of-game display helpers change the display only",
 "Flagging all mines after a win marks exactly the covered cells of the shown board, revealing all mines after a loss turns exactly the covered unflagged mines into revealed ones, and in any other phase either helper does nothing. No statistic, event, time, label, verdict or encoded replay differs afterwards, the game stays finished, and the next game of the session starts untouched.",
 ["histories"],"every history of games, helper calls in every phase, order and number, saving before or after",
 "The tests never call the helpers.",
 [BV],[("helpers",BV+":win_then_flag_all_mine, loss_then_open_all_mine")],[("game_board","shown board, also used by the session","base/src/videos/minesweeper_board.rs")],["get_game_board","getters","encoded replay"])
p("C25","The Python package answers as the library does",
 "Every class and function of the Python package gives, for every history of calls, the answer the library gives: live sessions, the replay readers with playback, analyses and per-event queries, boards fed one event at a time or in batches, cached board and position objects, the solvers at every position, and the generators' legality. Where the library refuses an operation Python raises an exception or ignores it without effect, it never answers something else, and no call aborts the interpreter. Replays saved from Python equal those saved from the library byte for byte.",
 ["histories","inputs","fault_sequences"],"every history of calls of the Python API with lost, duplicated and reordered mouse events, wall clock jumps, damaged replay files, seeks beyond the ends",
 "There are no tests of the Python package at all.",
 ["python_package/src/lib.rs","python_package/src/base_video.rs","python_package/src/board.rs","python_package/src/gameboard.rs","python_package/src/avf_video.rs","python_package/src/evf_video.rs","python_package/src/mvf_video.rs","python_package/src/rmv_video.rs"],[("session","python_package/src/base_video.rs"),("readers","python_package/src/*_video.rs"),("functions","python_package/src/lib.rs"),("boards","python_package/src/board.rs"),("positions","python_package/src/gameboard.rs")],[],["attributes and return values in Python"])
p("C26","The JavaScript package answers as the library does",
 "Every class and function of the JavaScript package (WebAssembly) gives, for every history of calls, the answer the library gives: the replay readers with playback, seeks, audit and per-event queries, boards fed one event at a time or in batches, with boards put in during the game, statistics, and mine probabilities at every position; matrices cross as JSON unchanged. Where the library refuses, an exception is raised or the documented empty answer given. Its mine laying, which has a random source and shuffle of its own, is legal and uniform over all arrangements, and its no-guess boards are no-guess.",
 ["histories","inputs","fault_sequences"],"every history of calls of the JavaScript API with lost, duplicated and reordered mouse events, damaged replay files, seeks beyond the ends, every outcome of the entropy source",
 "The only test of the package checks that 1+1 is 2.",
 ["wasm/src/lib.rs","wasm/src/board.rs","wasm/src/transfor.rs",UT],[("boards and readers","wasm/src/board.rs"),("functions","wasm/src/lib.rs"),("JSON conversions","wasm/src/transfor.rs"),("own shuffle",UT+":get_random_int, js_shuffle")],[],["getters and return values of the package"])
p("C27","Converting a replay to EVF keeps the replay",
 "A replay read from any of the four formats and written again as EVF is read back as the same replay: board, every event with its kind, position and time to the millisecond, labels, stamps, mode, 3BV, final time, flags, cell size and checksum; analysed, it shows the same board, counters and measures at every event. Writing changes nothing in the replay or its playback position, never touches a file that was there before, and writing the converted replay once more gives the same bytes.",
 ["inputs","histories","fault_sequences"],"every replay of the four formats that EVF has room for (sides up to 255, times of 24 bits), analysed and played or not, with short and interrupted reads and writes and any files already in the folder",
 "No test writes a replay that was read; what is lost shows only in reading the second file.",
 [BV,"base/src/videos/evf_video.rs","evf标准.md"],[("writer",BV+":generate_evf_v0_raw_data, save_to_evf_file"),("reader","base/src/videos/evf_video.rs:parse_video")],[],["fields of the second replay, its bytes"])
p("C28","The C interface answers as the library and returns its memory",
 "Called through its C header, mine laying, 3BV counting and mine probabilities give what the library gives: legal boards with the numbers of their mines, the exact 3BV, and bit for bit the library's probabilities and mine range. Boards passed in are left as they are; a board handed out stays unchanged until it is given back, whatever else is called; giving every board back, in any order, frees each piece of memory exactly once, with the size and alignment it was allocated with, and leaves nothing behind.",
 ["inputs","histories"],"every history of calls of the C interface, every number of boards held at once and every order of giving them back",
 "There is no test of the C interface; a wrong layout or a leak shows only to an allocator that looks.",
 ["c/src/lib.rs","c/ms_toollib.h"],[("interface","c/src/lib.rs")],[],["return values and memory as a C program sees them"])
p("C29","The equation systems of a position say what its numbers say",
 "At every position reached in a game, with any part of the mines and safe cells marked, the systems built from it hold exactly one equation for every opened number that touches covered cells: those cells, each once, and the number less the marked mines beside it. The split form separates exactly the cells no chain of numbers links and counts untouched cells and marked mines; the grouped form joins exactly the parts whose covered cells touch. Joining equivalent cells loses none, and the tables of a part list for every possible number of mines exactly how many arrangements there are and in how many each cell is a mine. Laid out equation by equation, in any order, the arrangements of a part come out each exactly once.",
 ["inputs","histories"],"every position reachable by play, zeros left beside covered cells by removed flags included, every marking; tables for parts of up to 17 cells",
 "The tests print the matrices of a few positions; a wrong coefficient in a rare shape of front shows only as a slightly wrong probability.",
 [UT],[("unsplit system",UT+":refresh_matrix"),("split system",UT+":refresh_matrixs"),("grouped system",UT+":refresh_matrixses"),("joining",UT+":combine"),("tables",UT+":cal_table_minenum_recursion"),("laying out",UT+":enuOneStep")],[],["returned matrices and tables"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
