// Runs a sequence of requests against the coverage bridge, given as arguments:
// q query, d dump, w work in a library compiled with the same flags, c dump from
// several goroutines.  Prints one line per request.
package main

/*
#cgo LDFLAGS: -L${SRCDIR}/../../cpp/build/common/coverage -lverif_work
#cgo LDFLAGS: -Wl,-rpath,${SRCDIR}/../../cpp/build/common/coverage
int VerifWork(int);
*/
import "C"
import (
	"bufio"
	"fmt"
	"os"
	"sync"

	"github.com/Fantom-foundation/Tosca/go/lib/cpp"
)

func main() {
	in := bufio.NewReader(os.Stdin)
	for _, a := range os.Args[1:] {
		switch a {
		case "q":
			fmt.Println("q", cpp.VerifIsEnabled())
		case "d":
			cpp.DumpCppCoverageData()
			fmt.Println("d")
		case "c":
			var wg sync.WaitGroup
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); cpp.DumpCppCoverageData() }()
			}
			wg.Wait()
			fmt.Println("c")
		case "w":
			C.VerifWork(3)
			fmt.Println("w")
		}
		// The checker looks at the files before the next request.
		if _, err := in.ReadString('\n'); err != nil {
			os.Exit(3)
		}
	}
	fmt.Println("end")
}
