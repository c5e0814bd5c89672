package tr

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
)

// Case is a behaviour of GenTrie: the digits of the hash of each key, and the calls
// <<key, value>> (With) or <<key, -1>> (Without) that make a trie.
type Case struct {
	Lay  [][]int `json:"lay"`
	Hist [][]int `json:"hist"`
}

// ReadCases reads the cases in a file, by layout.
func ReadCases(path string) (keys []string, by map[string][]Case) {
	f, err := os.Open(path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	by = map[string][]Case{}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic("harness: " + err.Error())
		}
		k := fmt.Sprint(c.Lay)
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], c)
	}
	sort.Strings(keys)
	return
}
