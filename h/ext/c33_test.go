package ext

import (
	"testing"

	"github.com/mewmew/typast/zz_verif/vh"
)

func TestV_C33(t *testing.T) {
	vh.Run(t, tokenProp("markup", 40))
	vh.Run(t, tokenProp("code", 35))
	vh.Run(t, tokenProp("math", 25))
}
