RULES = "explicit enumeration of positions, rolls and plays of the real rules code against an independent reference"
NA = {}
NOTES = {
 'C01': (RULES, "bounded families of positions, all rolls; complete inside each family"),
 'C02': (RULES, "all legal plays of the families, and of games from the opening to a bounded depth"),
 'C03': ("exhaustive exploration of all dice outcomes and play/skip sequences of the real code", "all 36 outcomes at every roll, bounded sequence depth"),
 'C04': (RULES, "all tray counts and bounded families and histories"),
 'C05': ("exhaustive walk of the whole game tree of the real code against a reference", "complete: every legal sequence, both starters"),
 'C06': (RULES, "all legal plays of the families"),
 'C07': (RULES, "all positions of the families, cell by cell"),
 'C08': (RULES, "all positions of the families, read back from the text"),
 'C09': ("stateless exploration of the real searches with every random draw enumerated (deviation-bounded where long)", "all small games to a size, position families, bounded budgets; one fixed network per game"),
 'C10': ("explicit-state exploration of a search model, bound to the code by replaying every explored execution of the real search step by step", "all small games to a size, bounded budgets"),
 'C11': ("exhaustive enumeration of the random choices of the real rollout against a reference playout", "all small games to a size, positions near the end of the real games, bounded rounds"),
 'C12': ("step-by-step model replay of the real batched search over all small games", "bounded budgets; one fixed network per game; noise enumerated over a grid"),
 'C13': ("enumeration of batches (orders, companions, repetitions) of the real batched search against solo runs", "bounded batch sizes and budgets"),
 'C14': ("exhaustive enumeration of move sets, weights and sampled outcomes over a grid", "grids of weights; every sampling outcome"),
 'C15': ("stateless exploration of whole matches of the real match loop on all small games, judged by recorded ends", "deviation-bounded choice tapes, 400 games per match"),
 'C16': ("deviation-bounded exhaustive exploration of the task schedules of the real parallel code under a controlled scheduler", "schedules of rayon joins with at most two deviations in the first splits"),
 'C17': ("stateless exploration of real self-play on all small games: every sequence of sampled moves, deviation-bounded where long", "small games to a size, bounded batches; labels and targets judged by the observed moves and by the search alone"),
 'C18': ("exhaustive enumeration of sample counts, cut points, missing and mismatched files and write-failure points of the real save and load", "all counts to a bound; every cut point in steps"),
 'C19': ("exhaustive enumeration of game records, cut points and write-failure points of the real save and load", "all agents, winners, turn counts; every byte prefix"),
 'C20': ("exhaustive enumeration of start configurations (path given, best model on disk) and of damaged checkpoints", "all combinations; cut points in steps; every single missing or misshapen variable"),
 'C21': ("exhaustive enumeration of match results (number and distribution of won games) driven through the real comparison", "all win counts around the thresholds, thorough: all 0 to 400"),
 'C22': ("exhaustive enumeration of requests over a family of data trees, run through the real program, judged by a reference training step", "seven trees, every combination of scope arguments"),
 'C23': ("exhaustive enumeration of the shuffles of the real training pass against reference gradient steps of every division into batches", "up to 5 samples (thorough 6), all batch sizes; larger ones by equal samples"),
 'C24': ("enumeration of configurations entry by entry through the real readers and the real program, judged by the references of the other properties", "several values per entry against two backgrounds; every missing or malformed entry"),
 'C25': ("stateless exploration of whole learning runs on small games, with every sampled move within a deviation bound and runs ended at many points", "runs of 1 to 3 iterations; ends at a grid of points"),
 'C26': ("exhaustive enumeration of game records and their prefixes through the real replay command", "bounded records; known finding: a match records no turns"),
}
