# --- C21: shortages and odd error numbers; ports
m("scarce-break", "C21", (KM, "				continue\n			}\n			if !wasSocketClosed", "				if cxnNumber > 2 {\n					break\n				}\n				continue\n			}\n			if !wasSocketClosed"))
m("scarce-giveup", "C21", (KM, "	cxnNumber := 0\n", "	cxnNumber := 0\n	fails := 0\n"), (KM, "			if isShortage(err) {\n", "			if fails++; isShortage(err) && fails < 20 {\n"))
m("scarce-locked", "C21", (KM, "				time.Sleep(time.Millisecond * 20)\n				continue", "				km.mu.Lock()\n				time.Sleep(time.Millisecond * 20)\n				km.mu.Unlock()\n				continue"))
m("scarce-shed", "C21", (KM, "				time.Sleep(time.Millisecond * 20)\n				continue", "				km.mu.Lock()\n				for _, kc := range km.clients {\n					kc.conn.Close()\n					break\n				}\n				km.mu.Unlock()\n				time.Sleep(time.Millisecond * 20)\n				continue"))
m("scarce-relisten", "C21", (KM, "				time.Sleep(time.Millisecond * 20)\n				continue", "				listener.Close()\n				time.Sleep(time.Millisecond * 20)\n				listener, _ = net.Listen(\"tcp\", iface)\n				continue"))
m("scarce-backoff", "C21", (KM, "	cxnNumber := 0\n", "	cxnNumber := 0\n	delay := time.Millisecond\n"), (KM, "				time.Sleep(time.Millisecond * 20)\n				continue", "				time.Sleep(delay)\n				delay *= 2\n				continue"))
m("scarce-spin", "C21", (KM, "				time.Sleep(time.Millisecond * 20)\n				continue", "				continue"))
m("dup-panic", "C21 C06", (KC, "	if err != nil {\n		return false\n	}\n	defer f.Close()", "	if err != nil && !wasSocketClosed(err) {\n		panic(err)\n	}\n	if err != nil {\n		return false\n	}\n	defer f.Close()"))
m("read-panic-odd", "C21 C06", (KC, "					kc.l.Warnf(\"kafka client %d read error: %v\", kc.clientPort, err)\n", "					if errors.Is(err, syscall.EPROTO) {\n						panic(err)\n					}\n"))
m("read-odd-continue", "C21 C06 C17", (KC, "					kc.l.Warnf(\"kafka client %d read error: %v\", kc.clientPort, err)\n", "					time.Sleep(time.Millisecond)\n					continue\n"))
