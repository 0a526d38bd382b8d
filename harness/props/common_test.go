package props

import "gopkg.in/irc.v4"

type ircMessage = irc.Message
