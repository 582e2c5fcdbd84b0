package polynomial

import "github.com/taurusgroup/frost-ed25519/pkg/ristretto"

// VerifAlgorithms is the number of evaluation algorithms.
const VerifAlgorithms = 4

// VerifEvaluate evaluates with one of the algorithms.
func VerifEvaluate(alg int, p *Exponent, index *ristretto.Scalar) *ristretto.Element {
	var result ristretto.Element
	switch alg {
	case 1:
		return p.evaluateClassic(index, &result)
	case 2:
		return p.evaluateVar(index, &result)
	case 3:
		return p.evaluateHorner(index, &result)
	}
	return p.Evaluate(index)
}
