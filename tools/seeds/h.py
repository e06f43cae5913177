K = "knx_stack/"

SEEDS = [
    {"id": "c24-one-connection", "property": "C24",
     "needs": "two USB clients in one program, with daemons on two ports of one host",
     "breaks": "connections are remembered by host, so the second client uses the first one's",
     "edits": [(K+"client/usbhid.py", "    async def _open_connection(self):\n        self.rsock, self.wsock = await asyncio.open_connection(self._ip, self._port)\n",
                "    _connections = {}\n\n    async def _open_connection(self):\n        if self._ip not in self._connections:\n            self._connections[self._ip] = await asyncio.open_connection(\n                self._ip, self._port\n            )\n        self.rsock, self.wsock = self._connections[self._ip]\n")],
     "demo": """
import asyncio, logging
import knx_stack.client.usbhid
logging.disable(logging.CRITICAL)
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)
accepted = []

async def main():
    servers = []
    for i in range(2):
        async def serve(r, w, i=i):
            accepted.append(i)
        servers.append(await asyncio.start_server(serve, "127.0.0.1", 0))
    return servers

servers = loop.run_until_complete(main())
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(7)])
s = knx_stack.State(Medium.usb_hid, t, GroupObjectTable({}))
msgs = [knx_stack.layer.application.a_group_value_read.req.Msg(asap=ASAP(1))]
clients = [knx_stack.client.usbhid.Client("127.0.0.1", x.sockets[0].getsockname()[1], s, msgs) for x in servers]
loop.run_until_complete(asyncio.sleep(0.5))
assert accepted == [0, 1], accepted
"""},
    {"id": "c23-connected-on-class", "property": "C23",
     "needs": "two tunnelling clients in one program, one of them connected before the other",
     "breaks": "whether a client is connected is kept for all clients, so the second one sends its messages before its connection",
     "edits": [(K+"client/knxnet_ip.py", "                self.connected = True\n", "                Tunneling.connected = True\n"),
               (K+"client/knxnet_ip.py", "        self.connected = False\n", ""),
               (K+"client/knxnet_ip.py", "    def __init__(\n        self,\n        local_addr: str,\n        local_port: int,\n        remote_addr", "    connected = False\n\n    def __init__(\n        self,\n        local_addr: str,\n        local_port: int,\n        remote_addr")],
     "demo": """
from knx_stack.client.knxnet_ip import Tunneling

class Transport:
    def sendto(self, *a):
        pass

def client(port):
    at = AddressTable(Address(0x1101), [], 255)
    t = AssociationTable(at, [])
    s = knx_stack.knxnet_ip.State(Medium.knxnet_ip, t, GroupObjectTable({}))
    c = Tunneling("127.0.0.1", port, "127.0.0.1", 3671, s, [])
    c.connection_made(Transport())
    return c

a, b = client(1), client(2)
a.datagram_received(bytes.fromhex("06100206001407000801c0a800010e5704041101"), ("127.0.0.1", 3671))
assert a.connected and not b.connected
"""},
]
