"""Stand-in for the ladon web service framework (not installable here).

It reproduces the part of ladon's contract the services depend on: typed
arguments built from the wire dictionaries, faults answered as 'fault'
dictionaries, attachments, and the exported environment.  Everything that is
decided by the simulator (threads, network, failures) lives elsewhere.
"""
