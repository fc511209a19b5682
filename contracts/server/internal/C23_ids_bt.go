package internal

import "github.com/unit-io/unitdb/server/internal/message"

func vcNewPeerIds() *message.MessageIds { m := message.NewMessageIds(); return &m }
func vcMID(id int64) message.MID        { return message.MID(id) }
