//go:build instr

package props

import (
	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	"github.com/mmdet/mcrypto/x509"
)

func init() {
	setYield = func(f func(int)) {
		sm3.VerifYield, sm2.VerifYield, x509.VerifYield, pkcs12.VerifYield = f, f, f, f
	}
	resetCode = func() {
		sm3.VerifReset()
		sm2.VerifReset()
		x509.VerifReset()
		pkcs12.VerifReset()
	}
}
