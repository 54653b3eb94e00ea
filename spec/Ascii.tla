------------------------------- MODULE Ascii --------------------------------
(* generated by tools/mkascii.py *)
sGET == <<71, 69, 84>>   \* GET
sHttp11 == <<72, 84, 84, 80, 47, 49, 46, 49>>   \* HTTP/1.1
sHttp10 == <<72, 84, 84, 80, 47, 49, 46, 48>>   \* HTTP/1.0
sHost == <<104, 111, 115, 116>>   \* host
sUpgrade == <<117, 112, 103, 114, 97, 100, 101>>   \* upgrade
sConnection == <<99, 111, 110, 110, 101, 99, 116, 105, 111, 110>>   \* connection
sWebsocket == <<119, 101, 98, 115, 111, 99, 107, 101, 116>>   \* websocket
sSKey == <<115, 101, 99, 45, 119, 101, 98, 115, 111, 99, 107, 101, 116, 45, 107, 101, 121>>   \* sec-websocket-key
sSVersion == <<115, 101, 99, 45, 119, 101, 98, 115, 111, 99, 107, 101, 116, 45, 118, 101, 114, 115, 105, 111, 110>>   \* sec-websocket-version
sSAccept == <<115, 101, 99, 45, 119, 101, 98, 115, 111, 99, 107, 101, 116, 45, 97, 99, 99, 101, 112, 116>>   \* sec-websocket-accept
sSProtocol == <<115, 101, 99, 45, 119, 101, 98, 115, 111, 99, 107, 101, 116, 45, 112, 114, 111, 116, 111, 99, 111, 108>>   \* sec-websocket-protocol
sSExtensions == <<115, 101, 99, 45, 119, 101, 98, 115, 111, 99, 107, 101, 116, 45, 101, 120, 116, 101, 110, 115, 105, 111, 110, 115>>   \* sec-websocket-extensions
sOrigin == <<111, 114, 105, 103, 105, 110>>   \* origin
sAuthorization == <<97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>   \* authorization
sLocation == <<108, 111, 99, 97, 116, 105, 111, 110>>   \* location
sBasic == <<66, 97, 115, 105, 99, 32>>   \* Basic 
sV13 == <<49, 51>>   \* 13
sCommaSp == <<44, 32>>   \* , 
sColon == <<58>>   \* :
sSlash == <<47>>   \* /
sQuestion == <<63>>   \* ?
sAt == <<64>>   \* @
sHash == <<35>>   \* #
sCSS == <<58, 47, 47>>   \* ://
sws == <<119, 115>>   \* ws
swss == <<119, 115, 115>>   \* wss
shttp == <<104, 116, 116, 112>>   \* http
shttps == <<104, 116, 116, 112, 115>>   \* https
sGet == <<71, 69, 84, 32>>   \* GET 
sSpHttp11 == <<32, 72, 84, 84, 80, 47, 49, 46, 49>>   \*  HTTP/1.1
=============================================================================
