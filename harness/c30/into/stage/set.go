package stage

import (
	"github.com/square/finch/client"
	"github.com/square/finch/workload"
)

// VerifSet sets the clients of a stage instead of Prepare.
func (s *Stage) VerifSet(groups [][]workload.ClientGroup) { s.execGroups = groups }

// VerifDone is where clients report.
func (s *Stage) VerifDone() chan *client.Client { return s.doneChan }
