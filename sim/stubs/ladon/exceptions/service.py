class ServiceFault(Exception):
    faultcode = 'service'

    def __init__(self, faultstring, *args):
        self.faultstring = faultstring
        Exception.__init__(self, faultstring, *args)

    def __str__(self):
        return str(self.faultstring)


class ClientFault(ServiceFault):
    faultcode = 'client'


class ServerFault(ServiceFault):
    faultcode = 'server'
