package issuer

import "testing"

func TestVerifC18(t *testing.T) { vstates(t, 118, func(*venv) {}) }
