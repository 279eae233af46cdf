package main

const sortRule = "Cases are drawn from a generator seeded by VERIF_SEED, property, workload & case number: element kind, length (biased to build thresholds & their multiples), one of 28 arrangements, values, MaxGor, schedule noise. "
const sortTriv = "Non-trivial: input is not in order already. Distinct: hash of kind, MaxGor & arrangement of ranks."

var rules = map[string]string{
	"C01": sortRule + sortTriv,
	"C02": sortRule + sortTriv,
	"C03": sortRule + "NaNoption & NaN density are drawn too. " + sortTriv,
	"C04": sortRule + sortTriv,
	"C05": sortRule + "11 collection models with different orders. " + sortTriv,
	"C06": sortRule + "Equal elements have different identities (addresses, capacities, NaN payloads, zero signs). " + sortTriv,
	"C07": sortRule + "Slices lie against inaccessible pages, their capacity may extend over them, contents they refer to are read-only (or inaccessible for by-length & pointer sorting); neighbours are written meanwhile under the race detector. Non-trivial: at least 2 elements. Distinct: hash of kind, length, MaxGor & result.",
	"C08": sortRule + sortTriv,
	"C09": sortRule + "Only inputs & MaxGor that allow goroutines; the caller writes the collection right before & after the call. " + sortTriv,
	"C10": sortRule + "Goroutines that touch the collection are identified; overlapping [first touch, last touch] intervals are counted. " + sortTriv,
	"C11": sortRule + "Go statements & channel creations are observed by instrumentation, and goroutine creation by runtime metrics. " + sortTriv,
	"C12": sortRule + "Step budget, deadlock detection of runtime & watchdog, goroutine census and accesses after return are observed. " + sortTriv,
	"C13": sortRule + "Allocated bytes are measured around the call; a stack limit of 16 KB (64 KB with instrumentation) is set while sorting inputs which unbalance partitions. " + sortTriv,
	"C14": sortRule + "Comparisons & loop steps are counted. " + sortTriv,
	"C15": "Sorted & almost sorted inputs (one pair out of order at ends, middle or anywhere) and arbitrary ones. Non-trivial: at least 2 elements. Distinct: hash of kind, length, contents & verdict.",
	"C16": "All n < 200 with all monotone predicates, and random n up to the largest int with thresholds near ends, middle or anywhere. Distinct: pairs of n & lowest true index.",
	"C17": "Slices of ~90 element types derived by reflection, nil, empty & filled, their arrays, pointers & plain values. Distinct: type, length & function.",
	"C18": sortRule + "MaxGor is assigned random values meanwhile, or lowered at a given step. " + sortTriv,
	"C19": sortRule + "2-6 calls on adjacent parts of one array, nested calls inside lesswap. " + sortTriv,
	"C20": sortRule + "MaxLen* are drawn among feasible settings for each case. " + sortTriv,
	"C21": sortRule + "Built for and run as GOARCH=386. " + sortTriv,
	"C22": "Elements refer to fresh objects reachable only through the slice; garbage is collected all the time during calls & freed memory is clobbered. Distinct: kind, MaxGor & object ids.",
	"C25": "Sorted, almost sorted & arbitrary inputs; created goroutines (runtime metrics), allocations & evaluations are measured around each call, go statements & channel operations by instrumentation. Distinct: kind, MaxGor & arrangement, or n & result.",
	"C24": sortRule + "User functions are left by panics & exits at random calls, sequences of calls under changing settings, weak references to everything given to a call. Distinct: input, place & kind of exit, or history.",
	"C23": sortRule + "Only inputs & MaxGor that allow goroutines. " + sortTriv,
}
