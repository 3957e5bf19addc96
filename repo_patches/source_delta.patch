From cfa2fdba4437fba9ba45ebd1ec0c7006c529dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 01/57] fix: withdraw the response waiter when writing to the
 port fails

If serial.write() raised, the response event and the expected terminator
of the failed command stayed armed, and later unsolicited lines were
swallowed as its response.
---
 gsmmodem/serial_comms.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ac445f5..920dc3d 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -124,18 +124,19 @@ class SerialComms(object):
                     self._expectResponseTermSeq = list(expectedResponseTermSeq) 
                 self._response = []
                 self._responseEvent = threading.Event()                
-                self.serial.write(data)
-                if self._responseEvent.wait(timeout):
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
-                    return self._response
-                else: # Response timed out
+                try:
+                    self.serial.write(data)
+                    if self._responseEvent.wait(timeout):
+                        return self._response
+                    else: # Response timed out
+                        if len(self._response) > 0:
+                            # Add the partial response to the timeout exception
+                            raise TimeoutException(self._response)
+                        else:
+                            raise TimeoutException()
+                finally:
+                    # Nothing is waiting anymore, regardless of how this command ended
                     self._responseEvent = None
                     self._expectResponseTermSeq = False
-                    if len(self._response) > 0:
-                        # Add the partial response to the timeout exception
-                        raise TimeoutException(self._response)
-                    else:
-                        raise TimeoutException()
             else:                
                 self.serial.write(data)
-- 
2.43.0


From 8f0c68d3aa5f3eba3e307ee6d43c129d10fa4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 02/57] fix: do not crash signalling threads when a waiter is
 withdrawn concurrently

The reader and notification threads tested an event attribute and then
dereferenced it again; the waiting thread resets it to None on timeout,
so a response arriving at that moment killed the thread.
---
 gsmmodem/modem.py        | 15 +++++++++------
 gsmmodem/serial_comms.py | 10 ++++++----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e468f34..89e7eda 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -934,7 +934,8 @@ class GsmModem(SerialComms):
     
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
-        if self._dialEvent:
+        dialEvent = self._dialEvent # the waiting thread may withdraw this at any time (timeout)
+        if dialEvent:
             if regexMatch:
                 groups = regexMatch.groups()
                 # Set self._dialReponse to (callId, callType)
@@ -944,7 +945,7 @@ class GsmModem(SerialComms):
                     self._dialResponse = (int(groups[0]), 1) # assume call type: VOICE
             else:
                 self._dialResponse = callId, callType
-            self._dialEvent.set()
+            dialEvent.set()
                 
     def _handleCallAnswered(self, regexMatch, callId=None):
         """ Handler for "outgoing call answered" event notification line """
@@ -1011,9 +1012,10 @@ class GsmModem(SerialComms):
             # Update sent SMS status if possible            
             if report.reference in self.sentSms:                
                 self.sentSms[report.reference].report = report
-            if self._smsStatusReportEvent:                
+            smsStatusReportEvent = self._smsStatusReportEvent # the waiting thread may withdraw this at any time (timeout)
+            if smsStatusReportEvent:                
                 # A sendSms() call is waiting for this response - notify waiting thread
-                self._smsStatusReportEvent.set()
+                smsStatusReportEvent.set()
             else:
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
@@ -1113,11 +1115,12 @@ class GsmModem(SerialComms):
     
     def _handleUssd(self, lines):
         """ Handler for USSD event notification line(s) """
-        if self._ussdSessionEvent:
+        ussdSessionEvent = self._ussdSessionEvent # the waiting thread may withdraw this at any time (timeout)
+        if ussdSessionEvent:
             # A sendUssd() call is waiting for this response - parse it
             self._ussdResponse = self._parseCusdResponse(lines)
             # Notify waiting thread
-            self._ussdSessionEvent.set()
+            ussdSessionEvent.set()
     
     def _parseCusdResponse(self, lines):
         """ Parses one or more +CUSD notification lines (for USSD)
diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 920dc3d..ff7fe7e 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -59,14 +59,15 @@ class SerialComms(object):
 
     def _handleLineRead(self, line, checkForResponseTerm=True):
         #print 'sc.hlineread:',line
-        if self._responseEvent and not self._responseEvent.is_set():
+        responseEvent = self._responseEvent # the waiting thread may withdraw this at any time (timeout)
+        if responseEvent and not responseEvent.is_set():
             # A response event has been set up (another thread is waiting for this response)
             self._response.append(line)
             if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
                 # End of response reached; notify waiting thread
                 #print 'response:', self._response
                 self.log.debug('response: %s', self._response)
-                self._responseEvent.set()
+                responseEvent.set()
         else:            
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
@@ -91,6 +92,7 @@ class SerialComms(object):
             rxBuffer = []
             while self.alive:
                 data = self.serial.read(1)
+                expectResponseTermSeq = self._expectResponseTermSeq # may be reset at any time by the waiting thread
                 if data != '': # check for timeout
                     #print >> sys.stderr, ' RX:', data,'({0})'.format(ord(data))
                     rxBuffer.append(data)
@@ -101,8 +103,8 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
-                    elif self._expectResponseTermSeq:
-                        if rxBuffer[-len(self._expectResponseTermSeq):] == self._expectResponseTermSeq:
+                    elif expectResponseTermSeq:
+                        if rxBuffer[-len(expectResponseTermSeq):] == expectResponseTermSeq:
                             line = ''.join(rxBuffer) 
                             rxBuffer = []
                             self._handleLineRead(line, checkForResponseTerm=False)                                                
-- 
2.43.0


From 7f86273dcfc2dfaf3e2353bce87343674f305da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 03/57] fix: only complete final result codes terminate a
 response

Without grouping, the anchors applied to the first and last alternative
only, so any response line starting with OK or ERROR (such as the text of
an SMS being read) ended the response early.
---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ff7fe7e..a59bfb1 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -18,7 +18,7 @@ class SerialComms(object):
     # End-of-line read terminator
     RX_EOL_SEQ = '\r\n'
     # End-of-response terminator
-    RESPONSE_TERM = re.compile(r'^OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT)$')
+    RESPONSE_TERM = re.compile(r'^(OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))$')
     # Default timeout for serial port reads (in seconds)
     timeout = 1
         
-- 
2.43.0


From 66a84e9c136c92f544a195f018161ec1dcc10435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:34 +0000
Subject: [PATCH 04/57] fix: cancel the coverage timer when
 waitForNetworkCoverage ends early

The timer thread is not a daemon, so it kept the program alive until the
timeout expired although coverage had already been found.
---
 gsmmodem/modem.py | 50 +++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 89e7eda..f2108e4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -597,32 +597,36 @@ class GsmModem(SerialComms):
             t.start()
         ss = -1
         checkCreg = True
-        while block[0]:
-            if checkCreg:
-                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
-                if cregResult:
-                    status = int(cregResult.group(2))
-                    if status in (1, 5):
-                        # 1: registered, home network, 5: registered, roaming
-                        # Now simply check and return network signal strength
+        try:
+            while block[0]:
+                if checkCreg:
+                    cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
+                    if cregResult:
+                        status = int(cregResult.group(2))
+                        if status in (1, 5):
+                            # 1: registered, home network, 5: registered, roaming
+                            # Now simply check and return network signal strength
+                            checkCreg = False
+                        elif status == 3:
+                            raise InvalidStateException('Network registration denied')
+                        elif status == 0:
+                            raise InvalidStateException('Device not searching for network operator')
+                    else:
+                        # Disable network registration check; only use signal strength
+                        self.log.info('+CREG check disabled due to invalid response or unsupported command')
                         checkCreg = False
-                    elif status == 3:
-                        raise InvalidStateException('Network registration denied')
-                    elif status == 0:
-                        raise InvalidStateException('Device not searching for network operator')
                 else:
-                    # Disable network registration check; only use signal strength
-                    self.log.info('+CREG check disabled due to invalid response or unsupported command')
-                    checkCreg = False
+                    # Check signal strength
+                    ss = self.signalStrength
+                    if ss > 0:
+                        return ss
+                time.sleep(1)
             else:
-                # Check signal strength
-                ss = self.signalStrength
-                if ss > 0:
-                    return ss
-            time.sleep(1)
-        else:
-            # If this is reached, the timer task has triggered
-            raise TimeoutException()
+                # If this is reached, the timer task has triggered
+                raise TimeoutException()
+        finally:
+            if timeout != None:
+                t.cancel() # do not leave the timer running when returning (or raising) early
         
     def sendSms(self, destination, text, waitForDeliveryReport=False, deliveryTimeout=15, sendFlash=False):
         """ Send an SMS text message
-- 
2.43.0


From 1dccc85b34c7b0c2fba224421812240d1cb707a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 05/57] fix: keep the prompt/body exchanges of an outgoing SMS
 together

The serial lock was released between AT+CMGS and the message body, so a
command written by another thread (e.g. the handler of an incoming SMS)
could be taken by the modem as the message text.
---
 gsmmodem/modem.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f2108e4..f3a6e1c 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -643,23 +643,25 @@ class GsmModem(SerialComms):
         :raise CommandError: if an error occurs while attempting to send the message
         :raise TimeoutException: if the operation times out
         """
-        if self._smsTextMode:
-            self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
-            result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
-        else:
-            pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
-            for pdu in pdus:
-                self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
-                result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
-        if result == None:
-            raise CommandError('Modem did not respond with +CMGS response')
-        reference = int(result[7:])
-        self._smsRef = reference + 1
-        if self._smsRef > 255:
-            self._smsRef = 0
-        sms = SentSms(destination, text, reference)
-        # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
-        self.sentSms[reference] = sms
+        # No other command may be written between the prompt and the message body (or between the parts of one message)
+        with self._txLock:
+            if self._smsTextMode:
+                self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
+                result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
+            else:
+                pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
+                for pdu in pdus:
+                    self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
+                    result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
+            if result == None:
+                raise CommandError('Modem did not respond with +CMGS response')
+            reference = int(result[7:])
+            self._smsRef = reference + 1
+            if self._smsRef > 255:
+                self._smsRef = 0
+            sms = SentSms(destination, text, reference)
+            # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
+            self.sentSms[reference] = sms
         if waitForDeliveryReport:
             self._smsStatusReportEvent = threading.Event()
             if self._smsStatusReportEvent.wait(deliveryTimeout):
-- 
2.43.0


From 51302afda1015c03fdb2d08ecdad847c7066326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 06/57] fix: require a +CMGS confirmation for every part of a
 long SMS

Only the last part's confirmation was checked, so a message of which an
earlier part had been refused was reported as sent.
---
 gsmmodem/modem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index f3a6e1c..c0ba7fa 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -653,6 +653,8 @@ class GsmModem(SerialComms):
                 for pdu in pdus:
                     self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
                     result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
+                    if result == None:
+                        break # this part was not accepted
             if result == None:
                 raise CommandError('Modem did not respond with +CMGS response')
             reference = int(result[7:])
-- 
2.43.0


From 3437154c7d01d227ad7f21aa3c89053fb3c0e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:36 +0000
Subject: [PATCH 07/57] fix: wake only the sender whose message a delivery
 report belongs to

Any status report released whichever sendSms() call was waiting, and a
report handled before the wait was set up was not noticed at all.
---
 gsmmodem/modem.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index c0ba7fa..72a95ad 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -145,7 +145,7 @@ class GsmModem(SerialComms):
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
-        self._smsStatusReportEvent = None # threading.Event
+        self._smsStatusReportEvents = {} # threading.Event objects of waiting sendSms() calls, key is the message reference
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
@@ -664,13 +664,15 @@ class GsmModem(SerialComms):
             sms = SentSms(destination, text, reference)
             # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
             self.sentSms[reference] = sms
+            if waitForDeliveryReport:
+                # Set this up before the report can possibly be handled
+                statusReportEvent = self._smsStatusReportEvents[reference] = threading.Event()
         if waitForDeliveryReport:
-            self._smsStatusReportEvent = threading.Event()
-            if self._smsStatusReportEvent.wait(deliveryTimeout):
-                self._smsStatusReportEvent = None
-            else: # Response timed out
-                self._smsStatusReportEvent = None
-                raise TimeoutException()
+            try:
+                if not statusReportEvent.wait(deliveryTimeout): # Response timed out
+                    raise TimeoutException()
+            finally:
+                self._smsStatusReportEvents.pop(reference, None)
         return sms
 
     def sendUssd(self, ussdString, responseTimeout=15):
@@ -1020,7 +1022,7 @@ class GsmModem(SerialComms):
             # Update sent SMS status if possible            
             if report.reference in self.sentSms:                
                 self.sentSms[report.reference].report = report
-            smsStatusReportEvent = self._smsStatusReportEvent # the waiting thread may withdraw this at any time (timeout)
+            smsStatusReportEvent = self._smsStatusReportEvents.get(report.reference) # the waiting thread may withdraw this at any time (timeout)
             if smsStatusReportEvent:                
                 # A sendSms() call is waiting for this response - notify waiting thread
                 smsStatusReportEvent.set()
-- 
2.43.0


From a96eda31da0d6b8be573bd62ae414a657577ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:52 +0000
Subject: [PATCH 08/57] fix: selecting a memory for SMS writes raised TypeError

_setSmsMemory() called write() without its data argument.
---
 gsmmodem/modem.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 72a95ad..86e43bf 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -533,7 +533,6 @@ class GsmModem(SerialComms):
         """ Set the current SMS memory to use for read/delete/write operations """
         # Switch to the correct memory type if required
         if write != None and write != self._smsMemWrite:
-            self.write()
             readDel = readDelete or self._smsMemReadDelete
             self.write('AT+CPMS="{0}","{1}"'.format(readDel, write))
             self._smsMemReadDelete = readDel
-- 
2.43.0


From 69b9439204fe96d63d210f312ad0f994ea2074fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:52 +0000
Subject: [PATCH 09/57] fix: remember the selected SMS memory in the form it is
 compared with

connect() stored the read/delete memory with its quotes (and before the
modem had accepted it), so it never compared equal to the names used in
notifications and would have been quoted twice when sent again.
---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 86e43bf..686dfca 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -328,11 +328,11 @@ class GsmModem(SerialComms):
                 for i in xrange(len(cpmsSupport)):
                     for memType in preferredMemoryTypes:
                         if memType in cpmsSupport[i]:
-                            if i == 0:
-                                self._smsMemReadDelete = memType
                             cpmsItems[i] = memType
                             break
                 self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
+                if cpmsItems[0]:
+                    self._smsMemReadDelete = cpmsItems[0].strip('"')
             del cpmsSupport
             del cpmsLine
         
-- 
2.43.0


From 6d07101624ac30b6b4c1634e7bb50d1590a687e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:52 +0000
Subject: [PATCH 10/57] fix: select the SMS memory and use it as one operation

Concurrent notification handlers could switch the storage between
another thread's AT+CPMS and its read/list/delete command, so that a
message in the wrong memory was read or deleted. The handlers now also
name the memory when deleting the message they have read.
---
 gsmmodem/modem.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 686dfca..5ee86bf 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -785,6 +785,12 @@ class GsmModem(SerialComms):
         :return: A list of Sms objects containing the messages read
         :rtype: list
         """
+        # The memory must not be switched by another thread while it is being listed (and its messages deleted)
+        with self._txLock:
+            return self._listStoredSms(status, memory, delete)
+
+    def _listStoredSms(self, status, memory, delete):
+        """ Implementation of listStoredSms(); the caller must hold the serial lock """
         self._setSmsMemory(readDelete=memory)
         messages = []
         delMessages = set()
@@ -1006,7 +1012,7 @@ class GsmModem(SerialComms):
             msgMemory = cmtiMatch.group(1)
             msgIndex = cmtiMatch.group(2)
             sms = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            self.deleteStoredSms(msgIndex, msgMemory)
             self.smsReceivedCallback(sms)
     
     def _handleSmsStatusReport(self, notificationLine):
@@ -1017,7 +1023,7 @@ class GsmModem(SerialComms):
             msgMemory = cdsiMatch.group(1)
             msgIndex = cdsiMatch.group(2)
             report = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            self.deleteStoredSms(msgIndex, msgMemory)
             # Update sent SMS status if possible            
             if report.reference in self.sentSms:                
                 self.sentSms[report.reference].report = report
@@ -1042,9 +1048,10 @@ class GsmModem(SerialComms):
         :return: The SMS message
         :rtype: subclass of gsmmodem.modem.Sms (either ReceivedSms or StatusReport)
         """
-        # Switch to the correct memory type if required
-        self._setSmsMemory(readDelete=memory)
-        msgData = self.write('AT+CMGR={0}'.format(index))
+        # Switch to the correct memory type if required (no other thread may switch it before the message is read)
+        with self._txLock:
+            self._setSmsMemory(readDelete=memory)
+            msgData = self.write('AT+CMGR={0}'.format(index))
         # Parse meta information
         if self._smsTextMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
@@ -1093,8 +1100,9 @@ class GsmModem(SerialComms):
         
         :raise CommandError: if unable to delete the stored message
         """
-        self._setSmsMemory(readDelete=memory)
-        self.write('AT+CMGD={0},0'.format(index))
+        with self._txLock: # no other thread may switch the memory before the message is deleted
+            self._setSmsMemory(readDelete=memory)
+            self.write('AT+CMGD={0},0'.format(index))
     
     def deleteMultipleStoredSms(self, delFlag=4, memory=None):
         """ Deletes all SMS messages that have the specified read status.
@@ -1117,8 +1125,9 @@ class GsmModem(SerialComms):
         :raise CommandError: if unable to delete the stored messages
         """
         if 0 < delFlag <= 4:
-            self._setSmsMemory(readDelete=memory)
-            self.write('AT+CMGD=1,{0}'.format(delFlag))
+            with self._txLock: # no other thread may switch the memory before the messages are deleted
+                self._setSmsMemory(readDelete=memory)
+                self.write('AT+CMGD=1,{0}'.format(delFlag))
         else:
             raise ValueError('"delFlag" must be in range [1,4]')
     
-- 
2.43.0


From 23be88a251878eef3e9c14575034f8422b63b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:36 +0000
Subject: [PATCH 11/57] fix: keep listed PDUs with their own index when one
 cannot be decoded

After an undecodable PDU the next +CMGL header was skipped, so the
following message got the previous message's index and status - and
with delete=True the wrong message was deleted.
---
 gsmmodem/modem.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5ee86bf..fbe3f38 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -829,13 +829,12 @@ class GsmModem(SerialComms):
             readPdu = False
             result = self.write('AT+CMGL={0}'.format(status))
             for line in result:
-                if not readPdu:
-                    cmglMatch = cmglRegex.match(line)
-                    if cmglMatch:
-                        msgIndex = int(cmglMatch.group(1))
-                        msgStat = int(cmglMatch.group(2))
-                        readPdu = True
-                else:
+                cmglMatch = cmglRegex.match(line)
+                if cmglMatch: # (a previous header may still be without a valid PDU; it is dropped)
+                    msgIndex = int(cmglMatch.group(1))
+                    msgStat = int(cmglMatch.group(2))
+                    readPdu = True
+                elif readPdu:
                     try:
                         smsDict = decodeSmsPdu(line)
                     except EncodingError:
-- 
2.43.0


From 1a0f1615fd4d7fe274c92c1b77a200881d2f6cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 12/57] fix: raise EncodingError for every PDU that cannot be
 decoded

Truncated PDUs and invalid field values surfaced as StopIteration,
ValueError, etc., which callers that handle EncodingError (such as
listStoredSms) do not expect.
---
 gsmmodem/pdu.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ee15ebc..f9bd730 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -370,6 +370,14 @@ def decodeSmsPdu(pdu):
     except Exception as e:
         # Python 2 raises TypeError, Python 3 raises binascii.Error
         raise EncodingError(e)
+    try:
+        return _decodePduOctets(pdu)
+    except (StopIteration, ValueError, IndexError, TypeError, OverflowError) as e:
+        # Truncated PDU, or PDU containing invalid field values
+        raise EncodingError('Invalid or truncated PDU: {0!r}'.format(e))
+
+def _decodePduOctets(pdu):
+    """ Implementation of decodeSmsPdu(); decodes a bytearray containing PDU octets """
     result = {}
     pduIter = iter(pdu)
  
-- 
2.43.0


From fa38560fe4c1226510a7f268bf8ce313d5a94ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 13/57] fix: correct the form feed entry of the GSM-7 extension
 table

The entry mapped U+00FF to an int: encoding text containing that character
raised TypeError, and a received form feed was dropped.
---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index f9bd730..02110f2 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -26,7 +26,7 @@ else: #pragma: no cover
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
 GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
-GSM7_EXTENDED = {chr(0xFF): 0x0A,
+GSM7_EXTENDED = {'\x0c': chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
                  #SS2: chr(0x1B),
-- 
2.43.0


From 90f873b6268f6b584e5d7e2e8a67b94165a9eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 14/57] fix: allow empty text in GSM-7 messages

packSeptets() and unpackSeptets() failed on empty input, so an empty SMS
could neither be sent nor decoded.
---
 gsmmodem/pdu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 02110f2..99f3b08 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -734,7 +734,9 @@ def packSeptets(octets, padBits=0):
         octets = iter(octets)
     shift = padBits
     if padBits == 0:
-        prevSeptet = next(octets)
+        prevSeptet = next(octets, None)
+        if prevSeptet == None: # nothing to pack
+            return result
     else:
         prevSeptet = 0x00
     for octet in octets:
@@ -793,7 +795,7 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
         
         if i == numberOfSeptets:
             break
-    if shift == 7:
+    if shift == 7 and prevOctet != None:
         b = prevOctet >> (8 - shift)
         if b:
             # The final septet value still needs to be unpacked
-- 
2.43.0


From 86c44acb54ea94afe4335316c0343bfb72be3da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 15/57] fix: do not lose the first character after a UDH
 without fill bits

With a 6-octet UDH (e.g. a 16-bit concatenation reference) the header
ends on a septet boundary, and the septet following it was skipped.
---
 gsmmodem/pdu.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 99f3b08..5c22a88 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -443,8 +443,15 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
             # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
             shift = ((udhLen + 1) * 8) % 7 # "fill bits" needed to make the UDH end on a septet boundary
             # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
-            prevOctet = next(byteIter)
-            shift += 1
+            if shift > 0:
+                prevOctet = next(byteIter)
+                shift += 1
+            else:
+                # No fill bits; the text starts in its own octet
+                prevOctet = None
+                shift = 7
+            # The user data length includes the UDH (with its length octet and fill bits)
+            userDataLen -= ((udhLen + 1) * 8 + 6) // 7
 
     if dataCoding == 0x00: # GSM-7
         if udhPresent:
-- 
2.43.0


From dad0fba973131f2e96748fffb9720d110167dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 16/57] fix: do not drop a final '@' from GSM-7 text

'@' is septet 0; as the last of a multiple of 8 characters it was taken
for padding even if the message length says it is part of the text.
---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 5c22a88..952ddbd 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -804,7 +804,7 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
             break
     if shift == 7 and prevOctet != None:
         b = prevOctet >> (8 - shift)
-        if b:
+        if b or len(result) + 1 == numberOfSeptets:
             # The final septet value still needs to be unpacked
             result.append(b)        
     return result
-- 
2.43.0


From 59e0825ee4ce869b7a363a0a03f3c10facfcab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:45 +0000
Subject: [PATCH 17/57] fix: encode characters outside of the BMP as surrogate
 pairs

encodeUcs2() raised ValueError for e.g. emoji, and received surrogate
pairs were returned as two lone surrogates.
---
 gsmmodem/pdu.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 952ddbd..1c267d9 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -820,7 +820,11 @@ def decodeUcs2(byteIter, numBytes):
     except StopIteration:
         # Not enough bytes in iterator to reach numBytes; return what we have
         pass
-    return ''.join(userData)
+    text = ''.join(userData)
+    if PYTHON_VERSION >= 3:
+        # Combine surrogate pairs (characters outside of the basic multilingual plane)
+        text = text.encode('utf-16-be', 'surrogatepass').decode('utf-16-be', 'surrogatepass')
+    return text
 
 def encodeUcs2(text):
     """ UCS2 text encoding algorithm
@@ -834,6 +838,10 @@ def encodeUcs2(text):
     """
     result = bytearray()
     for b in map(ord, text):
+        if b > 0xFFFF: # outside of the basic multilingual plane; use a surrogate pair
+            b -= 0x10000
+            result.extend((0xD8 | (b >> 18), (b >> 10) & 0xFF))
+            b = 0xDC00 | (b & 0x3FF)
         result.append(b >> 8)
         result.append(b & 0xFF)
     return result
-- 
2.43.0


From c9470d461a29d88cb8827a821067241622b1ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:46 +0000
Subject: [PATCH 18/57] fix: divide long messages by their encoded length

The number of parts was derived from the single-message limit although a
part holds 153 (67) characters, so the end of some texts was lost, and
two-septet characters could overflow a part.
---
 gsmmodem/pdu.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 1c267d9..c6e9f6d 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -42,6 +42,9 @@ GSM7_EXTENDED = {'\x0c': chr(0x0A), # form feed
 MAX_MESSAGE_LENGTH = {0x00: 160, # GSM-7
                       0x04: 140, # 8-bit
                       0x08: 70}  # UCS2
+# Maximum size of each part of a concatenated message (leaves room for the concatenation header)
+MAX_PART_LENGTH = {0x00: 153, # GSM-7
+                   0x08: 67}  # UCS2
 
 class SmsPduTzInfo(tzinfo):
     """ Simple implementation of datetime.tzinfo for handling timestamp GMT offsets specified in SMS PDUs """
@@ -284,11 +287,12 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         alphabet = 0x00 # GSM-7    
         
     # Check if message should be concatenated
-    if len(text) > MAX_MESSAGE_LENGTH[alphabet]:
+    if _encodedLength(text, alphabet) > MAX_MESSAGE_LENGTH[alphabet]:
         # Text too long for single PDU - add "concatenation" User Data Header
         concatHeaderPrototype = Concatenation()
         concatHeaderPrototype.reference = reference
-        pduCount = int(len(text) / MAX_MESSAGE_LENGTH[alphabet]) + 1
+        textParts = _divideText(text, alphabet)
+        pduCount = len(textParts)
         concatHeaderPrototype.parts  = pduCount
         tpduFirstOctet |= 0x40
     else:
@@ -308,10 +312,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         if concatHeaderPrototype != None:
             concatHeader = copy(concatHeaderPrototype)
             concatHeader.number = i + 1
-            if alphabet == 0x00:
-                pduText = text[i*153:(i+1) * 153]
-            elif alphabet == 0x08:
-                pduText = text[i * 67 : (i + 1) * 67]
+            pduText = textParts[i]
             udh.extend(concatHeader.encode())
         else:
             pduText = text
@@ -354,6 +355,29 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
+def _encodedLength(text, alphabet):
+    """ :return: The length of the specified text in septets (GSM-7) or 16-bit code units (UCS2) """
+    if alphabet == 0x00: # GSM-7
+        return len(encodeGsm7(text))
+    else: # UCS2
+        return len(encodeUcs2(text)) // 2
+
+def _divideText(text, alphabet):
+    """ Divides text into the parts of a concatenated message, without splitting the encoded form of any character """
+    parts = []
+    part = ''
+    partLength = 0
+    for char in text:
+        charLength = _encodedLength(char, alphabet)
+        if partLength + charLength > MAX_PART_LENGTH[alphabet]:
+            parts.append(part)
+            part = ''
+            partLength = 0
+        part += char
+        partLength += charLength
+    parts.append(part)
+    return parts
+
 def decodeSmsPdu(pdu):
     """ Decodes SMS pdu data and returns a tuple in format (number, text)
     
-- 
2.43.0


From e1d705d2700b6dc683ffc7695f23f696b64d5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:46 +0000
Subject: [PATCH 19/57] fix: use the shortest validity period for periods below
 5 minutes

The encoded value became -1, which does not fit into the octet, and
sending failed with ValueError.
---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index c6e9f6d..c960a31 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -519,7 +519,7 @@ def _encodeRelativeValidityPeriod(validityPeriod):
     #seconds = validityPeriod.total_seconds()
     seconds = validityPeriod.seconds + (validityPeriod.days * 24 * 3600)
     if seconds <= 43200: # 12 hours
-        tpVp = int(seconds / 300) - 1 # divide by 5 minutes, subtract 1
+        tpVp = max(int(seconds / 300) - 1, 0) # divide by 5 minutes, subtract 1 (5 minutes is the minimum)
     elif seconds <= 86400: # 24 hours
         tpVp = int((seconds - 43200) / 1800) + 143 # subtract 12 hours, divide by 30 minutes. add 143
     elif validityPeriod.days <= 30: # 30 days
-- 
2.43.0


From 35014bddeb9ccf7bb31cf0e4306b6cf00cac0fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:58 +0000
Subject: [PATCH 20/57] fix: keep quarter hours of text mode time zone offsets

The offset was truncated to whole hours, so timestamps from zones such as
+05:30 were off by up to 45 minutes.
---
 gsmmodem/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/util.py b/gsmmodem/util.py
index 1008e5c..0afdb73 100644
--- a/gsmmodem/util.py
+++ b/gsmmodem/util.py
@@ -41,7 +41,7 @@ def parseTextModeTimeStr(timeStr):
     :rtype: datetime.datetime
     """
     msgTime = timeStr[:-3]
-    tzOffsetHours = int(int(timeStr[-3:]) * 0.25)
+    tzOffsetHours = int(timeStr[-3:]) * 0.25
     return datetime.strptime(msgTime, '%y/%m/%d,%H:%M:%S').replace(tzinfo=SimpleOffsetTzInfo(tzOffsetHours))
 
 def lineStartingWith(string, lines):
-- 
2.43.0


From 4ef9ac61731ab76b16662c8c756e693b40906c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 21/57] fix: let iteration over a Trie end normally

Raising StopIteration inside a generator is a RuntimeError since Python 3.7.
---
 tools/gsmtermlib/trie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 184a2fd..323599d 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -182,5 +182,4 @@ class Trie(object):
     def __iter__(self):
         for k in list(self.keys()):
             yield k
-        raise StopIteration
     
\ No newline at end of file
-- 
2.43.0


From 61b7c91036b0f68f3e23b4ac4bc48441b94b960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 22/57] fix: keep the longer key when a Trie stores one of its
 prefixes

Storing e.g. 'AT' after 'ATD' overwrote the leaf holding 'ATD'.
---
 tools/gsmtermlib/trie.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 323599d..9e6190b 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -25,6 +25,9 @@ class Trie(object):
     
         if len(key) == 0:
             # All of the original key's chars have been nibbled away            
+            if self.key != None and len(self.key) > 0:
+                # This was a "leaf" previously - create a new branch for its current value
+                self.slots[self.key[0]] = Trie(self.key[1:], self.value)
             self.value = value
             self.key = ''
             return        
-- 
2.43.0


From 9d743b7842228ddde2ef38c611507f88281ef615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 23/57] fix: find longer keys below a stored prefix in
 longestCommonPrefix()

With 'AT' and 'ATD' stored, nothing was found for 'ATD' because the search
ended at the node of 'AT'.
---
 tools/gsmtermlib/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 9e6190b..117a382 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -170,7 +170,7 @@ class Trie(object):
                     return self.slots[c]._longestCommonPrefix('', prefix + c)
                 else:
                     return prefix
-        elif self.key != None:
+        elif self.key: # (a node with an empty key may have slots)
             if self.key.startswith(key):
                 return prefix + self.key
             else:
-- 
2.43.0


From 8016924e186f14e6e1acaad0d99585ff99ca78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 24/57] fix: remove emptied branches when deleting from a Trie

Branches without any key left were still followed by
longestCommonPrefix(), which then returned a prefix of no key at all.
---
 tools/gsmtermlib/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 117a382..7c1762d 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -76,6 +76,8 @@ class Trie(object):
                     del self.slots[c] # Remove the node
             else:
                 del trie[key[1:]]
+                if trie.key == None and len(trie.slots) == 0:
+                    del self.slots[c] # Remove the node, nothing is left below it
         else:
             raise KeyError(key)
                 
-- 
2.43.0


From 7949f17c155b29d71d8df63388b2b406657cb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 25/57] fix: restore the terminal settings when GSMTerm exits

sys.exitfunc does nothing in Python 3, so echo stayed disabled.
---
 tools/gsmtermlib/terminal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 4bc665d..5886994 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -9,7 +9,7 @@ Note: The "Console" object was copied from pySerial's miniterm.py code
 """
 
 from __future__ import print_function
-import os, sys, threading, time
+import os, sys, threading, time, atexit
 import serial
 
 from gsmmodem.serial_comms import SerialComms
@@ -99,7 +99,7 @@ elif os.name == 'posix':
         console.cleanup()
 
     console.setup()
-    sys.exitfunc = cleanup_console      # terminal modes have to be restored on exit...
+    atexit.register(cleanup_console)    # terminal modes have to be restored on exit...
 
 else:
     raise NotImplementedError("Sorry no implementation for your platform (%s) available." % sys.platform)
-- 
2.43.0


From def63465624f69663669eb9a72b4b7f8d21151b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 26/57] fix: let sendsms.py read the message text in Python 3

raw_input() does not exist there.
---
 tools/sendsms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/sendsms.py b/tools/sendsms.py
index 31c42bd..e984aee 100755
--- a/tools/sendsms.py
+++ b/tools/sendsms.py
@@ -12,6 +12,9 @@ import sys, logging
 from gsmmodem.modem import GsmModem, SentSms
 from gsmmodem.exceptions import TimeoutException, PinRequiredError, IncorrectPinError
 
+if sys.version_info[0] >= 3:
+    raw_input = input
+
 def parseArgs():
     """ Argument parser for Python 2.7 and above """
     from argparse import ArgumentParser
-- 
2.43.0


From d51be706216bcc40ad221cf7e0f8a310d99bb738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 27/57] fix: do not end GSMTerm when completing an unknown
 command

Pressing TAB after e.g. 'AT+UNKNOWN=' raised KeyError in the input thread.
---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 5886994..3d713b0 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -569,7 +569,7 @@ class GsmTerm(RawTerm):
 
     def __printCommandSyntax(self, command):
         """ Command-completion helper method: print command syntax """
-        commandHelp = self.completion[command]
+        commandHelp = self.completion.get(command)
         if commandHelp != None and len(commandHelp) > 2:
             commandValues = commandHelp[2]
             #commandDefault = commandHelp[3]
-- 
2.43.0


From f67ea4c459e4f6cb75f56e923dcb13e0c7176031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 28/57] fix: do not erase lower case input on command
 completion

The possible commands were looked up in upper case, but their common
prefix with the input as typed, which is empty for lower case input.
---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 3d713b0..dade7d5 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -554,7 +554,7 @@ class GsmTerm(RawTerm):
                     self._refreshInputPrompt(len(self.inputBuffer))
                 return
             else:
-                commonPrefix = self.completion.longestCommonPrefix(''.join(self.inputBuffer))
+                commonPrefix = self.completion.longestCommonPrefix(prefix)
                 self.inputBuffer = list(commonPrefix)
                 self.cursorPos = len(self.inputBuffer)
                 if matchLen > 20:
-- 
2.43.0


From 353988e1417493c396ee012da982080c7690db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 29/57] fix: leave SMS input mode when the modem rejects
 AT+CMGS

GSMTerm took the error response for the message prompt, and further
commands were collected as message text.
---
 tools/gsmtermlib/terminal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index dade7d5..b6566cb 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -457,6 +457,11 @@ class GsmTerm(RawTerm):
                     except TimeoutException:
                         self._typingSms = False                        
                     else:
+                        if not response[-1].endswith('> '): # command was rejected
+                            self._typingSms = False
+                            sys.stdout.write(self._color(self.COLOR_RED, '{0}\n'.format(response[-1])))
+                            self._refreshInputPrompt()
+                            return
                         sys.stdout.write(self._color(self.COLOR_YELLOW, 'Type your SMS message, and press CTRL+Z to send it or press ESC to cancel.\n'))                        
                         self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[0])
                     self._refreshInputPrompt()                        
-- 
2.43.0


From 298944a9c5f360ab56aaa9c21da0c478e1b18853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 30/57] fix: do not give a new call the ID of an active call

IDs were derived from the number of active calls, so once the first of two
calls had ended a new call replaced the remaining one in activeCalls.
---
 gsmmodem/modem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index fbe3f38..287758c 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -730,7 +730,7 @@ class GsmModem(SerialComms):
             # Don't wait for a call init update - base the call ID on the number of active calls
             self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
             self.log.debug("Not waiting for outgoing call init update message")
-            callId = len(self.activeCalls) + 1
+            callId = self._newCallId()
             callType = 0 # Assume voice
             call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
             self.activeCalls[callId] = call
@@ -750,6 +750,13 @@ class GsmModem(SerialComms):
             self._dialEvent = None
             raise TimeoutException()
 
+    def _newCallId(self):
+        """ :return: the lowest call ID that is not used by an active call """
+        callId = 1
+        while callId in self.activeCalls:
+            callId += 1
+        return callId
+
     def processStoredSms(self, unreadOnly=False):
         """ Process all SMS messages currently stored on the device/SIM card.
         
@@ -941,7 +948,7 @@ class GsmModem(SerialComms):
                 call = activeCall
                 call.ringCount += 1
         if call == None:
-            callId = len(self.activeCalls) + 1;
+            callId = self._newCallId()
             call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
             self.activeCalls[callId] = call
         self.incomingCallCallback(call)    
-- 
2.43.0


From 03ecb9142d1e569b73da29a130213beab2fa53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 31/57] fix: iterate over a copy of the active calls

Other threads add and remove calls (also from status callbacks) while the
notification handlers iterate, which raises RuntimeError.
---
 gsmmodem/modem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 287758c..0501a71 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -943,7 +943,7 @@ class GsmModem(SerialComms):
             callerNumber = ton = callerName = None
         
         call = None
-        for activeCall in dictValuesIter(self.activeCalls):
+        for activeCall in list(dictValuesIter(self.activeCalls)):
             if activeCall.number == callerNumber:
                 call = activeCall
                 call.ringCount += 1
@@ -977,7 +977,7 @@ class GsmModem(SerialComms):
                 self.activeCalls[callId].answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
-                for call in dictValuesIter(self.activeCalls):
+                for call in list(dictValuesIter(self.activeCalls)):
                     if call.answered == False and type(call) == Call:
                         call.answered = True
                         return
@@ -992,7 +992,7 @@ class GsmModem(SerialComms):
                 callId = int(groups[0])
             else:
                 # Call ID not available for this notification - check for the first outgoing call that is active
-                for call in dictValuesIter(self.activeCalls):
+                for call in list(dictValuesIter(self.activeCalls)):
                     if type(call) == Call:
                         if not filterUnanswered or (filterUnanswered == True and call.answered == False):
                             callId = call.id
-- 
2.43.0


From e9e9efe6a7a19c114638347d0b7c1d93ae95ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 32/57] fix: mark an ended call inactive before its status
 callback runs

The callback saw an active call; calling hangup() on it sent another ATH
(and recursed when the call was being hung up locally).
---
 gsmmodem/modem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0501a71..eeac617 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -998,9 +998,9 @@ class GsmModem(SerialComms):
                             callId = call.id
                             break
         if callId and callId in self.activeCalls:
-            self.activeCalls[callId].answered = False
-            self.activeCalls[callId].active = False
-            del self.activeCalls[callId]
+            call = self.activeCalls.pop(callId)
+            call.active = False
+            call.answered = False # executes the status update callback
 
     def _handleCallRejected(self, regexMatch, callId=None):
         """ Handler for rejected (unanswered calls being ended)
@@ -1303,8 +1303,8 @@ class Call(object):
         """
         if self.active:
             self._gsmModem.write('ATH')
-            self.answered = False
             self.active = False
+            self.answered = False # executes the status update callback
         if self.id in self._gsmModem.activeCalls:
             del self._gsmModem.activeCalls[self.id]
 
-- 
2.43.0


From d24691790ba92a9fd255a7eada3c68f626f2a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 33/57] fix: ignore "call answered" updates for unknown calls

The KeyError ended the notification (or polling) thread.
---
 gsmmodem/modem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index eeac617..c36ba32 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -974,7 +974,8 @@ class GsmModem(SerialComms):
             groups = regexMatch.groups()
             if len(groups) > 1:
                 callId = int(groups[0])
-                self.activeCalls[callId].answered = True
+                if callId in self.activeCalls:
+                    self.activeCalls[callId].answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
                 for call in list(dictValuesIter(self.activeCalls)):
@@ -983,7 +984,8 @@ class GsmModem(SerialComms):
                         return
         else:
             # Use supplied values
-            self.activeCalls[callId].answered = True
+            if callId in self.activeCalls:
+                self.activeCalls[callId].answered = True
 
     def _handleCallEnded(self, regexMatch, callId=None, filterUnanswered=False):
         if regexMatch:
-- 
2.43.0


From a7c630b3ffe4d640ab4162ad3dd05c28570db327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 34/57] fix: accept incoming calls of types other than VOICE

+CRING also reports e.g. FAX and ASYNC calls, for which the KeyError ended
the notification thread; the type is now passed on as reported.
---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index c36ba32..df5ed01 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1324,7 +1324,7 @@ class IncomingCall(Call):
         :param callType: Type of the incoming call (VOICE, FAX, DATA, etc)
         """
         if type(callType) == str:
-            callType = self.CALL_TYPE_MAP[callType] 
+            callType = self.CALL_TYPE_MAP.get(callType, callType)
         super(IncomingCall, self).__init__(gsmModem, callId, callType, number)        
         # Type attribute of the incoming call
         self.ton = ton
-- 
2.43.0


From 9201a4fed4e604fba829afb24a34e77ff7d0d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 35/57] fix: handle every notification of a batch

Notifications read in one go are passed on together, but only the first
one was handled: of two +CMTI lines, the second message was never read.
USSD messages containing "RING" are also no longer taken for calls.
---
 gsmmodem/modem.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index df5ed01..86ac590 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -880,23 +880,25 @@ class GsmModem(SerialComms):
         
         :param lines The lines that were read
         """
-        for line in lines:
-            if 'RING' in line:
+        lines = list(lines)
+        unhandledLines = []
+        while len(lines) > 0: # several notifications may have been read at once
+            line = lines[0]
+            if line.startswith('+CUSD'):
+                # USSD notification - either a response or a MT-USSD ("push USSD") message
+                self._handleUssd(lines) # (the message may span all of the remaining lines)
+                break
+            elif 'RING' in line:
                 # Incoming call (or existing call is ringing)
-                self._handleIncomingCall(lines)
-                return
-            elif line.startswith('+CMTI'):
+                self._handleIncomingCall(lines) # removes the lines belonging to this notification
+                continue
+            lines.pop(0)
+            if line.startswith('+CMTI'):
                 # New SMS message indication
                 self._handleSmsReceived(line)
-                return
-            elif line.startswith('+CUSD'):
-                # USSD notification - either a response or a MT-USSD ("push USSD") message
-                self._handleUssd(lines)
-                return
             elif line.startswith('+CDSI'):
                 # SMS status report
                 self._handleSmsStatusReport(line)
-                return
             else:
                 # Check for call status updates            
                 for updateRegex, handlerFunc in self._callStatusUpdates:
@@ -904,9 +906,11 @@ class GsmModem(SerialComms):
                     if match:
                         # Handle the update
                         handlerFunc(match)
-                        return
-        # If this is reached, the notification wasn't handled
-        self.log.debug('Unhandled unsolicited modem notification: %s', lines)    
+                        break
+                else:
+                    unhandledLines.append(line)
+        if len(unhandledLines) > 0:
+            self.log.debug('Unhandled unsolicited modem notification: %s', unhandledLines)
     
     def _handleIncomingCall(self, lines):
         self.log.debug('Handling incoming call')
@@ -926,7 +930,7 @@ class GsmModem(SerialComms):
                     self._extendedIncomingCallIndication = False
         else:
             callType = None
-        if self._callingLineIdentification and len(lines) > 0:
+        if self._callingLineIdentification and len(lines) > 0 and lines[0].startswith('+CLIP'):
             clipLine = lines.pop(0)
             clipMatch = self.CLIP_REGEX.match(clipLine)
             if clipMatch:
-- 
2.43.0


From 459567352b52b26acea361f79c0a2835b9bc538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 36/57] fix: tolerate missing information responses during
 connect()

A modem that answers AT+CFUN?, AT+WIND? or AT+CPMS=? with a bare OK made
connect() fail with TypeError/AttributeError.
---
 gsmmodem/modem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 86ac590..9a836ca 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -187,8 +187,8 @@ class GsmModem(SerialComms):
             pinCheckComplete = False
         self.write('ATE0') # echo off
         try:
-            cfun = int(lineStartingWith('+CFUN:', self.write('AT+CFUN?'))[7:]) # example response: +CFUN: 1
-            if cfun != 1:
+            cfun = lineStartingWith('+CFUN:', self.write('AT+CFUN?')) # example response: +CFUN: 1
+            if cfun != None and int(cfun[7:]) != 1:
                 self.write('AT+CFUN=1')
         except CommandError:
             pass # just ignore if the +CFUN command isn't supported
@@ -231,7 +231,7 @@ class GsmModem(SerialComms):
                 pass
             else:
                 # Enable notifications for call setup, hangup, etc
-                if int(wind[7:]) != 50:
+                if wind == None or int(wind[7:]) != 50:
                     self.write('AT+WIND=50')
                 callUpdateTableHint = 2 # Wavecom
 
@@ -313,7 +313,7 @@ class GsmModem(SerialComms):
             self._smsReadSupported = False
             self.log.warning('SMS preferred message storage query not supported by modem. SMS reading unavailable.')
         else:
-            cpmsSupport = cpmsLine.split(' ', 1)[1].split('),(')
+            cpmsSupport = cpmsLine.split(' ', 1)[1].split('),(') if cpmsLine != None else ['']
             # Do a sanity check on the memory types returned - Nokia S60 devices return empty strings, for example
             for memItem in cpmsSupport:
                 if len(memItem) == 0:
-- 
2.43.0


From c413bc41022923747e0ae0f32451c8575d958925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 37/57] fix: handle +CUSD responses without a message

Responses such as "+CUSD: 2" raised AttributeError in the notification
thread and sendUssd() waited until its timeout.
---
 gsmmodem/modem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 9a836ca..0ce61a9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1164,7 +1164,7 @@ class GsmModem(SerialComms):
             cusdMatches = list(self.CUSD_REGEX.finditer('\r\n'.join(lines)))
         else:
             # Single standard +CUSD response
-            cusdMatches = [self.CUSD_REGEX.match(lines[0])]
+            cusdMatches = list(self.CUSD_REGEX.finditer(lines[0]))
         message = None
         sessionActive = True
         if len(cusdMatches) > 1:
@@ -1180,6 +1180,9 @@ class GsmModem(SerialComms):
                     message = cusdMatch.group(2)
                     if sessionActive and cusdMatch.group(1) != '1':
                         sessionActive = False
+        elif len(cusdMatches) == 0:
+            # The response does not contain a message, e.g. "+CUSD: 2" (session terminated by network)
+            sessionActive = lineMatching(r'^\+CUSD:\s*1', lines) != None
         else:
             sessionActive = cusdMatches[0].group(1) == '1'
             message = cusdMatches[0].group(2)
-- 
2.43.0


From dfdebebc91e03351eb0e24e431768e09427463ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 38/57] fix: do not mistake an outgoing call for a ringing one

An incoming call from a number with an active outgoing call was looked up
as that call, which has no ring count (AttributeError).
---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0ce61a9..1d4f9ad 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -948,7 +948,7 @@ class GsmModem(SerialComms):
         
         call = None
         for activeCall in list(dictValuesIter(self.activeCalls)):
-            if activeCall.number == callerNumber:
+            if isinstance(activeCall, IncomingCall) and activeCall.number == callerNumber:
                 call = activeCall
                 call.ringCount += 1
         if call == None:
-- 
2.43.0


From fc8e5cc72746124c5a2a392ef4bcb6df210a716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 39/57] fix: end the busy slowdown even if the retried command
 fails

---
 gsmmodem/modem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1d4f9ad..006b6f8 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -428,12 +428,14 @@ class GsmModem(SerialComms):
                             # Retry the command after waiting a bit
                             self.log.debug('Device/SIM busy error detected; self._writeWait adjusted to %fs', self._writeWait)
                             time.sleep(self._writeWait)
-                            result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
-                            self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
-                            if errorCode == 515:
-                                self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
-                            else:
-                                self._writeWait = 0 # The modem was just waiting for the SIM card
+                            try:
+                                result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
+                            finally:
+                                self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
+                                if errorCode == 515:
+                                    self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
+                                else:
+                                    self._writeWait = 0 # The modem was just waiting for the SIM card
                             return result
                         if errorType == 'CME':
                             raise CmeError(data, int(errorCode))
-- 
2.43.0


From 0201a73227f01b019da923d9971ce6b84be72965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 40/57] fix: do not drop a newer call when hanging up an ended
 one

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 006b6f8..28ec1b5 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1316,8 +1316,8 @@ class Call(object):
             self._gsmModem.write('ATH')
             self.active = False
             self.answered = False # executes the status update callback
-        if self.id in self._gsmModem.activeCalls:
-            del self._gsmModem.activeCalls[self.id]
+        if self._gsmModem.activeCalls.get(self.id) is self: # (the ID may be in use by a newer call by now)
+            self._gsmModem.activeCalls.pop(self.id, None)
 
 
 class IncomingCall(Call):
-- 
2.43.0


From 4dca6a8089730f7a539e1ff586f0dda5ddeccbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 41/57] fix: switch the SMS mode and use it as one operation

---
 gsmmodem/modem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 28ec1b5..3255798 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -525,11 +525,12 @@ class GsmModem(SerialComms):
     @smsTextMode.setter
     def smsTextMode(self, textMode):
         """ Set to True for the modem to use text mode for SMS, or False for it to use PDU mode """
-        if textMode != self._smsTextMode:
-            if self.alive:
-                self.write('AT+CMGF={0}'.format(1 if textMode else 0))
-            self._smsTextMode = textMode
-            self._compileSmsRegexes()
+        with self._txLock: # no SMS command may be written between switching the mode and taking note of it
+            if textMode != self._smsTextMode:
+                if self.alive:
+                    self.write('AT+CMGF={0}'.format(1 if textMode else 0))
+                self._smsTextMode = textMode
+                self._compileSmsRegexes()
     
     def _setSmsMemory(self, readDelete=None, write=None):
         """ Set the current SMS memory to use for read/delete/write operations """
@@ -1066,8 +1067,9 @@ class GsmModem(SerialComms):
         with self._txLock:
             self._setSmsMemory(readDelete=memory)
             msgData = self.write('AT+CMGR={0}'.format(index))
+            textMode = self._smsTextMode # the mode that the message was read in
         # Parse meta information
-        if self._smsTextMode:
+        if textMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
             if cmgrMatch:
                 msgStatus, number, msgTime = cmgrMatch.groups()
-- 
2.43.0


From f35957bab70ecf265b33aac9c7d0dd0a34b00aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:53 +0000
Subject: [PATCH 42/57] fix: look up the message of a status report only once

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 3255798..76802b4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1040,8 +1040,9 @@ class GsmModem(SerialComms):
             report = self.readStoredSms(msgIndex, msgMemory)
             self.deleteStoredSms(msgIndex, msgMemory)
             # Update sent SMS status if possible            
-            if report.reference in self.sentSms:                
-                self.sentSms[report.reference].report = report
+            sentSms = self.sentSms.get(report.reference) # weak reference: the message may be discarded at any time
+            if sentSms is not None:
+                sentSms.report = report
             smsStatusReportEvent = self._smsStatusReportEvents.get(report.reference) # the waiting thread may withdraw this at any time (timeout)
             if smsStatusReportEvent:                
                 # A sendSms() call is waiting for this response - notify waiting thread
-- 
2.43.0


From 5da093945b5c8cebb8fe2f1353aad6061447b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 43/57] fix: recognise the end of Huawei calls of ten seconds
 and more

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 76802b4..fcef9a3 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -253,7 +253,7 @@ class GsmModem(SerialComms):
             self.log.info('Loading Huawei call state update table')
             self._callStatusUpdates = ((re.compile(r'^\^ORIG:(\d),(\d)$'), self._handleCallInitiated),
                                        (re.compile(r'^\^CONN:(\d),(\d)$'), self._handleCallAnswered),
-                                       (re.compile(r'^\^CEND:(\d),(\d),(\d)+,(\d)+$'), self._handleCallEnded))
+                                       (re.compile(r'^\^CEND:(\d),(\d+),(\d+),(\d+)$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
             Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
-- 
2.43.0


From 86c4372054806c05a4d43d31792b136bd12adf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 44/57] fix: keep an incoming call ringing if it could not be
 hung up

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index fcef9a3..85cf78a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1358,8 +1358,8 @@ class IncomingCall(Call):
 
     def hangup(self):
         """ End the phone call. """
-        self.ringing = False
         super(IncomingCall, self).hangup()
+        self.ringing = False # (only once the call has really ended)
 
 class Ussd(object):
     """ Unstructured Supplementary Service Data (USSD) message.
-- 
2.43.0


From 5bee402c3ac08ef50cce8f0a3338bb7f6c2867dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 45/57] fix: do not answer an incoming call that has ended
 already

---
 gsmmodem/modem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 85cf78a..9f04e86 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1009,6 +1009,8 @@ class GsmModem(SerialComms):
         if callId and callId in self.activeCalls:
             call = self.activeCalls.pop(callId)
             call.active = False
+            if isinstance(call, IncomingCall):
+                call.ringing = False # the caller gave up
             call.answered = False # executes the status update callback
 
     def _handleCallRejected(self, regexMatch, callId=None):
-- 
2.43.0


From b161173c3305254fd2ed4026f02e15c322f604ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 46/57] fix: handle status updates of a call that another
 thread ends at the same time

---
 gsmmodem/modem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 9f04e86..8196013 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -981,8 +981,9 @@ class GsmModem(SerialComms):
             groups = regexMatch.groups()
             if len(groups) > 1:
                 callId = int(groups[0])
-                if callId in self.activeCalls:
-                    self.activeCalls[callId].answered = True
+                call = self.activeCalls.get(callId) # another thread may end the call at any time
+                if call is not None:
+                    call.answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
                 for call in list(dictValuesIter(self.activeCalls)):
@@ -991,8 +992,9 @@ class GsmModem(SerialComms):
                         return
         else:
             # Use supplied values
-            if callId in self.activeCalls:
-                self.activeCalls[callId].answered = True
+            call = self.activeCalls.get(callId)
+            if call is not None:
+                call.answered = True
 
     def _handleCallEnded(self, regexMatch, callId=None, filterUnanswered=False):
         if regexMatch:
@@ -1006,8 +1008,8 @@ class GsmModem(SerialComms):
                         if not filterUnanswered or (filterUnanswered == True and call.answered == False):
                             callId = call.id
                             break
-        if callId and callId in self.activeCalls:
-            call = self.activeCalls.pop(callId)
+        call = self.activeCalls.pop(callId, None) # another thread may end the call at any time
+        if call is not None:
             call.active = False
             if isinstance(call, IncomingCall):
                 call.ringing = False # the caller gave up
-- 
2.43.0


From d893389b8c50b718fde3c8482c9eb94befb85fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 47/57] fix: GSM-7 code 0x5F is the section sign, not the
 backtick

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index c960a31..b2af2e5 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -25,7 +25,7 @@ else: #pragma: no cover
     rawStrToByteArray = bytearray
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
-GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
+GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà')
 GSM7_EXTENDED = {'\x0c': chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
-- 
2.43.0


From abc892294441d33b33f089ca174825d58edcaa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 48/57] fix: do not encode a literal ESC character as the GSM-7
 escape code

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index b2af2e5..eb72e09 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -715,7 +715,7 @@ def encodeGsm7(plaintext, discardInvalid=False):
         plaintext = str(plaintext)
     for char in plaintext:
         idx = GSM7_BASIC.find(char)
-        if idx != -1:
+        if idx != -1 and idx != 0x1B: # the escape code does not represent a character by itself
             result.append(idx)
         elif char in GSM7_EXTENDED:
             result.append(0x1B) # ESC - switch to extended table
-- 
2.43.0


From 31b18447e317f77112bf2c06fbdf7f8ed2177e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 49/57] fix: decode unknown and incomplete GSM-7 escape
 sequences

---
 gsmmodem/pdu.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index eb72e09..5759ab0 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -741,11 +741,17 @@ def decodeGsm7(encodedText):
     iterEncoded = iter(encodedText)
     for b in iterEncoded:
         if b == 0x1B: # ESC - switch to extended table
-            c = chr(next(iterEncoded))
+            b = next(iterEncoded, None)
+            if b == None: # incomplete escape sequence at the end of the text
+                break
+            c = chr(b)
             for char, value in dictItemsIter(GSM7_EXTENDED):
                 if c == value:
                     result.append(char)
                     break
+            else:
+                # Not in the extension table; use the character from the main table
+                result.append(GSM7_BASIC[b])
         else:
             result.append(GSM7_BASIC[b])
     return ''.join(result)
-- 
2.43.0


From e8852e8130b62ef9777ba64478b8f82f709036ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 50/57] fix: read the type-of-address octet of an empty number

---
 gsmmodem/pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 5759ab0..e20bb54 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -606,8 +606,11 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
             if ton == 0x10: # International number
                 addressValue = '+' + addressValue
             return (addressValue, (addressLen + 1))
-    else:
+    elif smscField:
         return (None, 1)
+    else:
+        next(byteIter) # the type-of-address is present even if the number is empty
+        return (None, 2)
 
 def _encodeAddressField(address, smscField=False):
     """ Encodes the address into an address field
-- 
2.43.0


From 9464e210b5bc31f11217c36b7c3114426663d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 51/57] fix: decodeSemiOctets() reads nothing if no octets are
 expected

---
 gsmmodem/pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index e20bb54..90f6d5c 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -683,6 +683,8 @@ def decodeSemiOctets(encodedNumber, numberOfOctets=None):
     :rtype: string
     """
     number = []
+    if numberOfOctets == 0:
+        return ''
     if type(encodedNumber) in (str, bytes):
         encodedNumber = bytearray(codecs.decode(encodedNumber, 'hex_codec'))
     i = 0
-- 
2.43.0


From 34ac4b279a369d1d55dd747fd8df3690165408ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 52/57] fix: skip the enhanced validity period when decoding
 SMS-SUBMIT

---
 gsmmodem/pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 90f6d5c..35fa102 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -433,6 +433,9 @@ def _decodePduOctets(pdu):
             result['validity'] = _decodeRelativeValidityPeriod(next(pduIter))
         elif validityPeriodFormat == 0x03: # TP-VP field present and semi-octet represented (absolute)            
             result['validity'] = _decodeTimestamp(pduIter)
+        elif validityPeriodFormat == 0x01: # TP-VP field present in the (unsupported) enhanced format
+            for i in xrange(7):
+                next(pduIter)
         userDataLen = next(pduIter)
         udhPresent = (tpduFirstOctet & 0x40) != 0
         ud = _decodeUserData(pduIter, userDataLen, dataCoding, udhPresent)
-- 
2.43.0


From 1b35ba5f6d06424bb951ecea9443c2b32f556804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 53/57] fix: do not decode the padding after the last GSM-7
 character

---
 gsmmodem/pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 35fa102..9aa1fe3 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -485,7 +485,8 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
             userDataSeptets = unpackSeptets(byteIter, userDataLen, prevOctet, shift)
         else:
             userDataSeptets = unpackSeptets(byteIter, userDataLen)
-        result['text'] = decodeGsm7(userDataSeptets)
+        # The spare bits at the end of the last octet may contain a padding character
+        result['text'] = decodeGsm7(userDataSeptets[:max(userDataLen, 0)])
     elif dataCoding == 0x02: # UCS2
         result['text'] = decodeUcs2(byteIter, userDataLen)
     else: # 8-bit (data)
-- 
2.43.0


From 379b61a00568ae9345bd78051a266ccacd76b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 54/57] fix: length of alphanumeric addresses

---
 gsmmodem/pdu.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 9aa1fe3..fd811eb 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -591,8 +591,10 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
         ton = (toa & 0x70) # bits 6,5,4 of type-of-address == type-of-number
         if ton == 0x50: 
             # Alphanumberic number            
+            numSeptets = addressLen * 4 // 7 # addressLen is the amount of semi-octets
             addressLen = int(math.ceil(addressLen / 2.0))
-            septets = unpackSeptets(byteIter, addressLen)
+            octets = bytearray([next(byteIter) for i in xrange(addressLen)])
+            septets = unpackSeptets(octets, numSeptets)[:numSeptets]
             addressValue = decodeGsm7(septets)
             return (addressValue, (addressLen + 2))
         else:
@@ -650,8 +652,9 @@ def _encodeAddressField(address, smscField=False):
             toa &= 0xFE # switch to "unknown" numbering plan
             alphaNumeric = True
     if  alphaNumeric:
-        addressValue = packSeptets(encodeGsm7(address, False))
-        addressLen = len(addressValue) * 2        
+        septets = encodeGsm7(address, False)
+        addressValue = packSeptets(septets)
+        addressLen = (len(septets) * 7 + 3) // 4 # amount of useful semi-octets
     else:
         addressValue = encodeSemiOctets(address)
         if smscField:            
-- 
2.43.0


From 7534095ce0bb2bc2d5c041bd020044b3cd70d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 55/57] fix: TPDU length of SMS-SUBMIT PDUs that contain an
 SMSC number

---
 gsmmodem/pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index fd811eb..4e64ad2 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -307,6 +307,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
             pdu.extend(_encodeAddressField(smsc, smscField=True))
         else:
             pdu.append(0x00) # Don't supply an SMSC number - use the one configured in the device 
+        smscLength = len(pdu)
     
         udh = bytearray()
         if concatHeaderPrototype != None:
@@ -351,7 +352,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         else:
             pdu.append(userDataLength)
         pdu.extend(userData) # User Data (message payload)
-        tpdu_length = len(pdu) - 1
+        tpdu_length = len(pdu) - smscLength # the SMSC field is not part of the TPDU
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
-- 
2.43.0


From 3fb51b047c84f9fc9498980bb6cad36aef8be064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:00 +0000
Subject: [PATCH 56/57] fix: show the right documentation of AT+WOPN in GSMTerm

The command was in the table twice, the second time with the name of
AT+CPLS.
---
 tools/gsmtermlib/atcommands.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/gsmtermlib/atcommands.py b/tools/gsmtermlib/atcommands.py
index 7085179..14f973f 100644
--- a/tools/gsmtermlib/atcommands.py
+++ b/tools/gsmtermlib/atcommands.py
@@ -127,7 +127,6 @@ When <mode>=2, this command must be viewed in conjunction with the V.25ter comma
                                             ('<ci>', 'string type; two byte cell ID in hexadecimal format')), 
              'This command is used by the application to ascertain the registration status of the device.')),
 ('AT+WOPN', (c[2], 'Read Operator Name')),
-('AT+WOPN', (c[2], 'Selection of Preferred PLMN List')),
 ('AT+CPLS', (c[2], 'Selection of Preferred PLMN List')),
 ('AT+CPOL', (c[2], 'Preferred Operator List')),
 ('AT+COPN', (c[2], 'Read Operator Name', None, (('<NumOper>', 'the operator in numeric format'), ('<AlphaOper>', 'the operator in long alphanumeric format')), 'This command returns the list of all operator names (in numeric and alphanumeric format) stored in the module.')),
-- 
2.43.0


From cce79ba9ff6fb08b1178befeeb4550e6985c159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:19 +0000
Subject: [PATCH 57/57] fix: listStoredSms() lost messages with an empty text
 in text mode

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 8196013..2d6186c 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -819,7 +819,7 @@ class GsmModem(SerialComms):
                 cmglMatch = cmglRegex.match(line)                
                 if cmglMatch:
                     # New message; save old one if applicable
-                    if msgIndex != None and len(msgLines) > 0:
+                    if msgIndex != None: # (the text of a message may be empty)
                         msgText = '\n'.join(msgLines)
                         msgLines = []
                         messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
@@ -829,7 +829,7 @@ class GsmModem(SerialComms):
                 else:
                     if line != 'OK':
                         msgLines.append(line)
-            if msgIndex != None and len(msgLines) > 0:
+            if msgIndex != None: # (the text of a message may be empty)
                 msgText = '\n'.join(msgLines)
                 msgLines = []
                 messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-- 
2.43.0

