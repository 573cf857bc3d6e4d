PROPERTY="N28"
NEEDS="a connection whose number is already held, with a new UUID"
BREAKS="the refused connection is listed and found by its UUID all the same"
EDITS=[("sql/net/conn_manager_impl.go","""		return newErrConnExist(uuid.String())
	}
	uid := c.ID()
	if _, ok := cm.uidMap[uid]; ok {
		return newErrConnExist(fmt.Sprintf("%d", uid))
	}

	cm.m[uuid] = c
	cm.uidMap[uid] = c
""","""		return newErrConnExist(uuid.String())
	}
	cm.m[uuid] = c
	uid := c.ID()
	if _, ok := cm.uidMap[uid]; ok {
		return newErrConnExist(fmt.Sprintf("%d", uid))
	}
	cm.uidMap[uid] = c
""")]
IMPORTS=['sqlnet "github.com/cybergarage/go-sqlparser/sql/net"']
DEMO='''func main() {
	m := sqlnet.NewConnManager()
	check(m.AddConn(sqlnet.NewConnWith(nil, sqlnet.WithConnID(7))) == nil, "add")
	c := sqlnet.NewConnWith(nil, sqlnet.WithConnID(7))
	check(m.AddConn(c) != nil, "same number accepted")
	_, ok := m.LookupConnByUUID(c.UUID())
	check(!ok && len(m.Conns()) == 1, "refused connection is held")
}
'''
