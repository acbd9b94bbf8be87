package props

import (
	"reflect"

	zkutils "github.com/iden3/go-iden3-core/utils/zk"
)

// copyZkFiles copies the files' description into a configuration, which holds
// it by value.
func copyZkFiles(dst, src *zkutils.ZkFiles) {
	reflect.ValueOf(dst).Elem().Set(reflect.ValueOf(src).Elem())
}
