package checks

// workers are subcommands run in child processes (cases that may kill the process).
var workers = map[string]func(args []string){}

// Worker runs a child-process subcommand.
func Worker(args []string) bool {
	if args[0] != "worker" || len(args) < 2 {
		return false
	}
	workers[args[1]](args[2:])
	return true
}
